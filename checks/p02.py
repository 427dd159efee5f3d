"""P02 node data contract."""
import numpy as np
import mdp
from harness.core import Check, Skip, is_numeric
from harness import catalog as C

CHECK = Check('P02', 'A case is one node configuration driven with one number type and one memory '
              'layout of its arrays (C, Fortran, strided, negative stride, read-only), interleaved '
              'with malformed arrays; caller-owned memory is compared byte by byte around every '
              'call. Distinct by node, dtype, layout and sequence.')
CHECK.expect_events(buffers_watched=500, malformed_rejected=200, outputs_checked=300)

ITERATIVE = ('ISFA', 'FastICA_defl', 'FastICA_symm', 'CuBICA', 'JADE', 'TDSEP', 'XSFA')
LAYOUTS = ['C', 'F', 'strided', 'neg', 'readonly', 'colslice']


def lay(a, kind):
    """(array equal to a in the given layout, owner array)"""
    a = np.asarray(a)
    if a.ndim == 1:
        b = np.zeros(2 * len(a), a.dtype)
        b[::2] = a
        return (b[::2], b) if kind in ('strided', 'neg', 'colslice') else (a.copy(), None)
    if kind == 'C':
        b = np.ascontiguousarray(a).copy()
        return b, b
    if kind == 'F':
        b = np.asfortranarray(a).copy(order='F')
        return b, b
    if kind == 'strided':
        b = np.full((2 * a.shape[0], 2 * a.shape[1]), 77, dtype=a.dtype)
        b[::2, 1::2] = a
        return b[::2, 1::2], b
    if kind == 'neg':
        b = np.ascontiguousarray(a[::-1, ::-1]).copy()
        return b[::-1, ::-1], b
    if kind == 'colslice':
        b = np.full((a.shape[0], a.shape[1] + 3), 55, dtype=a.dtype)
        b[:, 1:1 + a.shape[1]] = a
        return b[:, 1:1 + a.shape[1]], b
    b = np.ascontiguousarray(a).copy()
    b.flags.writeable = False
    return b, b


class Watch(object):
    """Remembers the bytes of every caller-owned array."""

    def __init__(self, rec):
        self.rec = rec
        self.items = []

    def give(self, a, kind):
        v, owner = lay(a, kind)
        owner = v if owner is None else owner
        self.items.append((owner, owner.tobytes(), owner.dtype, owner.shape))
        self.rec.event('buffers_watched')
        return v

    def check(self, where):
        for owner, b, dt, sh in self.items:
            self.rec.require(owner.tobytes() == b and owner.dtype == dt and owner.shape == sh,
                             'input-mutated', '%s: an array owned by the caller was modified' % where)


def check_out(rec, spec, node, y, n, dt, where):
    rec.event('outputs_checked')
    rec.require(isinstance(y, np.ndarray), 'output-type', '%s: %r' % (where, type(y)))
    if spec.out == 'node':
        rec.require(y.dtype == node.dtype, 'output-dtype', '%s: output %s, node %s' % (where, y.dtype, node.dtype))
        rec.require(y.shape == (spec.rows(n), node.output_dim), 'output-shape',
                    '%s: %s, expected %s' % (where, y.shape, (spec.rows(n), node.output_dim)))
    else:
        rec.require(y.ndim == 2 and y.shape[0] == n, 'output-shape', '%s: %s' % (where, y.shape))


def malformed(rng, rec, spec, node, watch, dt, call, where):
    """Feed arrays that must be refused; nothing may be learnt from them."""
    d = node.input_dim
    kinds = ['1d', '3d', 'empty'] + (['cols'] if d is not None else [])
    kind = kinds[rng.randint(len(kinds))]
    if kind == '1d':
        bad = rng.randn(d or 4).astype(dt)
    elif kind == '3d':
        bad = rng.randn(3, d or 4, 1).astype(dt)
    elif kind == 'empty':
        bad = np.zeros((0, d or spec.d), dtype=dt)
    else:
        bad = rng.randn(5, d + 1 if rng.rand() < 0.5 or d == 1 else d - 1).astype(dt)
    if rng.rand() < 0.5:
        # also of another number type than the good data
        bad = bad.astype('f' if np.dtype(dt) != np.dtype('f') else 'd')
    bad0 = bad.copy()
    dims0 = (node.input_dim, node.output_dim, node.dtype)
    try:
        call(bad)
    except mdp.NodeException:
        rec.event('malformed_rejected')
    except Exception as e:
        rec.fail('wrong-error', '%s: %s input raised %r instead of a node error' % (where, kind, e))
    else:
        rec.fail('accepted-malformed', '%s: %s input was accepted' % (where, kind))
    rec.require((node.input_dim, node.output_dim, node.dtype) == dims0, 'dims-moved', lambda: '%s: refused %s input (%s) '
                'changed the dimensions and number type from %s to %s' % (
                    where, kind, bad.dtype, dims0, (node.input_dim, node.output_dim, node.dtype)))
    rec.require(np.array_equal(bad, bad0), 'input-mutated', where)


@CHECK.each([(s.name, s) for s in C.SPECS], quick=40, thorough=500)
def contract(rng, rec, spec):
    alld = list(spec.dtypes) + list(spec.ints)
    dt = np.dtype(alld[rng.randint(len(alld))])
    kind = LAYOUTS[rng.randint(len(LAYOUTS))]
    X = spec.data(rng, dtype=dt)
    E = spec.train_args(rng, X)
    x = spec.xin(rng, 12, dt)
    where = '%s %s %s' % (spec.name, dt, kind)
    seed = rng.randint(1 << 30)
    # reference: contiguous copies, nothing malformed
    ref = spec.make()
    np.random.seed(seed)
    spec.train(ref, [(X.copy(), None if E is None else np.array(E))])
    np.random.seed(seed + 1)
    yref = spec.run(ref, x.copy())
    check_out(rec, spec, ref, yref, len(x), dt, where + ' (reference)')
    # monitored run
    w = Watch(rec)
    node = spec.make()
    if rng.rand() < 0.4 and 'RBM' not in spec.name:
        # dims/dtype fixed by the user
        try:
            node.dtype = dt
            if node.input_dim is None:
                node.input_dim = spec.d
        except mdp.NodeException as e:
            rec.fail('setter', '%s: %s' % (where, e))
    wb = rng.rand() < 0.5
    np.random.seed(seed)
    if node.is_trainable():
        while node.is_training():
            if wb and node.get_current_train_phase() == 0 and spec.extra is None:
                malformed(rng, rec, spec, node, w, dt, node.train, where + ' train')
            xx = w.give(X, kind)
            ee = None if E is None else w.give(E, kind)
            st = np.random.get_state()
            if wb and spec.extra is None:
                malformed(rng, rec, spec, node, w, dt, node.train, where + ' train2')
            np.random.set_state(st)
            spec.feed(node, [(xx, ee)])
            w.check(where + ' after train')
            if wb and spec.extra is None:
                st = np.random.get_state()
                malformed(rng, rec, spec, node, w, dt, node.train, where + ' train3')
                np.random.set_state(st)
            node.stop_training()
            w.check(where + ' after stop')
    xi = w.give(x, kind)
    if wb and spec.exec_extra is None:
        malformed(rng, rec, spec, node, w, dt, node.execute, where + ' execute')
    np.random.seed(seed + 1)
    y = spec.run(node, xi)
    w.check(where + ' after execute')
    check_out(rec, spec, node, y, len(x), dt, where)
    # the iterative algorithms stop at a limit of their own
    tol = 1e-3 if dt == np.dtype('f') else max(1e-4 if spec.name in ITERATIVE else 1e-6, spec.tol)
    rec.require(C.close(y, yref, tol, spec.sign), 'layout-dependent',
                lambda: '%s: result depends on memory layout or rejected data (diff %g)'
                % (where, C.maxdiff(y, yref)))
    ycopy = y.copy()
    if spec.classifier:
        xl = w.give(x, kind)
        for meth in ('label', 'prob', 'rank'):
            try:
                getattr(node, meth)(xl)
            except NotImplementedError:
                continue
            w.check('%s after %s' % (where, meth))
            if wb:
                malformed(rng, rec, spec, node, w, dt, getattr(node, meth), where + ' ' + meth)
    if node.is_invertible() and spec.out == 'node':
        yi = w.give(y, kind)
        xr = node.inverse(yi)
        w.check(where + ' after inverse')
        rec.require(xr.shape == (len(y), node.input_dim), 'inverse-shape', '%s %s' % (where, xr.shape))
        rec.require(xr.dtype == node.dtype, 'inverse-dtype', '%s %s' % (where, xr.dtype))
        for bad in (rng.randn(4, node.output_dim + 1).astype(dt), rng.randn(node.output_dim).astype(dt)):
            try:
                node.inverse(bad)
                rec.fail('accepted-malformed', '%s inverse of %s' % (where, bad.shape))
            except mdp.NodeException:
                rec.event('malformed_rejected')
    # single row
    if spec.minexec == 1:
        x1 = w.give(x[:1], kind)
        y1 = spec.run(node, x1)
        check_out(rec, spec, node, y1, 1, dt, where + ' single row')
        w.check(where + ' after single row')
    # dimensions and dtype stay fixed
    dims = (node.input_dim, node.output_dim, node.dtype)
    rec.require(dims[0] == x.shape[1] + 3 * (spec.name == 'RBMLabels'), 'input_dim', '%s %s' % (where, dims))
    for attr, val in (('input_dim', dims[0] + 1), ('output_dim', (dims[1] or 0) + 1)):
        try:
            setattr(node, attr, val)
            rec.fail('dim-changed', '%s: %s could be changed' % (where, attr))
        except mdp.InconsistentDimException:
            rec.event('malformed_rejected')
        except mdp.NodeException as e:
            rec.fail('wrong-error', '%s: changing %s gave %r' % (where, attr, e))
    other = np.dtype('f' if dims[2] != np.dtype('f') else 'd')
    try:
        node.dtype = other
        rec.fail('dtype-changed', '%s: dtype could be changed to %s' % (where, other))
    except mdp.NodeException:
        rec.event('malformed_rejected')
    node.input_dim = dims[0]
    try:
        node.output_dim = dims[1]
    except mdp.NodeException:
        pass    # documented: cannot be set explicitly
    node.dtype = dims[2]
    rec.require((node.input_dim, node.output_dim, node.dtype) == dims, 'dims-moved', where)
    rec.require(np.array_equal(y, ycopy, equal_nan=True), 'output-mutated',
                '%s: an earlier output was modified by later calls' % where)
    rec.case(spec.name, str(dt), kind, wb, seed)


@CHECK.each([(s.name, s) for s in C.SPECS if set(s.dtypes) >= set('df') and s.name not in
             ('RBFexp', 'TimeDelaySW')], quick=15, thorough=200)
def casting(rng, rec, spec):
    """A node with a fixed dtype casts whatever numeric data arrive to it."""
    dt = np.dtype('df'[rng.randint(2)])
    src = ['d', 'f', 'i', 'h', 'l'][rng.randint(5)]
    X = spec.data(rng)
    if np.dtype(src).kind == 'i':
        X = np.round(X * 20)
    X = X.astype(src)
    E = spec.train_args(rng, X)
    node = spec.make()
    node.dtype = dt
    seed = rng.randint(1 << 30)
    np.random.seed(seed)
    X0 = X.copy()
    spec.train(node, [(X, E)])
    x = X[:max(9, spec.minexec)]
    np.random.seed(seed + 1)
    y = spec.run(node, x)
    where = '%s: %s data into %s node' % (spec.name, src, dt)
    rec.require(np.array_equal(X, X0) and X.dtype == X0.dtype, 'input-mutated', where)
    rec.require(node.dtype == dt, 'dtype-changed', where)
    check_out(rec, spec, node, y, len(x), dt, where)
    # same as feeding already cast data
    ref = spec.make()
    ref.dtype = dt
    np.random.seed(seed)
    Er = E.astype(dt) if isinstance(E, np.ndarray) and E.dtype.kind == 'f' else E
    spec.train(ref, [(X.astype(dt), Er)])
    np.random.seed(seed + 1)
    yr = spec.run(ref, x.astype(dt))
    rec.require(C.close(y, yr, 2e-3 if dt == np.dtype('f') else 1e-6, spec.sign), 'cast-differs',
                lambda: '%s: differs by %g' % (where, C.maxdiff(y, yr)))
    rec.case(spec.name, str(dt), src, seed)


@CHECK.scenario(quick=400, thorough=4000)
def unsupported_dtypes(rng, rec):
    spec = C.SPECS[rng.randint(len(C.SPECS))]
    node = spec.make()
    if spec.name == 'Signum' or 'Hopfield' in spec.name or node.dtype is not None:
        raise Skip()
    sup = node.get_supported_dtypes()
    for t in ('D', 'F', 'S3', '?', 'i', 'h', 'f', 'd', 'g', 'b'):
        t = np.dtype(t)
        n2 = spec.make()
        if t in sup:
            try:
                n2.dtype = t
            except mdp.NodeException as e:
                rec.fail('setter', '%s refuses supported dtype %s: %s' % (spec.name, t, e))
            continue
        try:
            n2.dtype = t
            rec.fail('accepted-dtype', '%s accepted unsupported dtype %s' % (spec.name, t))
        except mdp.NodeException:
            rec.event('malformed_rejected')
        rec.require(n2.dtype is None, 'dtype-changed', '%s %s' % (spec.name, t))
        if t.kind in 'ib?DF' and spec.extra is None:
            X = np.ones((20, spec.d)).astype(t)
            try:
                (n2.train if n2.is_trainable() else n2.execute)(X)
                rec.fail('accepted-dtype', '%s learned from %s data' % (spec.name, t))
            except mdp.NodeException:
                rec.event('malformed_rejected')
            rec.require(n2.dtype is None and (n2.input_dim is None or n2.input_dim == spec.make().input_dim),
                        'dims-moved', '%s: refused %s data changed dtype or input_dim to %s, %s' % (
                            spec.name, t, n2.dtype, n2.input_dim))
    rec.case(spec.name)


@CHECK.scenario(quick=400, thorough=4000)
def constructor_dims(rng, rec):
    """Dimensions given by the user are honoured, or refused, never silently changed."""
    spec = C.SPECS[rng.randint(len(C.SPECS))]
    free = ['PCA', 'Whitening', 'SFA', 'NIPALS', 'Identity', 'Normalize', 'Histogram', 'FDA', 'KNN',
            'Gaussian', 'NearestMean', 'Cutoff', 'Poly3', 'CuBICA', 'LinReg', 'Perceptron',
            'OnlineCentering', 'OnlineTimeDiff', 'AdaptiveCutoff', 'KMeans', 'UserTwoPhase', 'GSFA']
    spec = C.BY_NAME[free[rng.randint(len(free))]]
    d = int(rng.randint(2, 6))
    node = spec.make(input_dim=d)
    rec.require(node.input_dim == d, 'input_dim', spec.name)
    X = C.smooth_mix(rng, 60, d + (1 if rng.rand() < 0.5 else 0))
    E = spec.train_args(rng, X)
    if spec.name == 'LinReg':
        E = X[:, :1] * 2
    f = (lambda: spec.feed(node, [(X, E)])) if node.is_trainable() else (lambda: node.execute(X))
    if X.shape[1] != d:
        try:
            f()
            rec.fail('accepted-malformed', '%s(input_dim=%d) took %d columns' % (spec.name, d, X.shape[1]))
        except mdp.NodeException:
            rec.event('malformed_rejected')
    else:
        f()
    rec.require(node.input_dim == d, 'input_dim', spec.name)
    if isinstance(node, mdp.PreserveDimNode):
        try:
            spec.make(input_dim=d, output_dim=d + 1)
            rec.fail('accepted-dims', '%s with different input and output dims' % spec.name)
        except mdp.InconsistentDimException:
            rec.event('malformed_rejected')
        except TypeError:
            pass
        # either dimension fixes the other, later values have to agree
        first, second = [('input_dim', 'output_dim'), ('output_dim', 'input_dim')][rng.randint(2)]
        n2 = spec.make()
        if n2.input_dim is None and n2.output_dim is None:
            setattr(n2, first, d)
            rec.require(n2.input_dim == d and n2.output_dim == d, 'preserved-dims', lambda: '%s: %s=%d gives %s -> %s' % (
                spec.name, first, d, n2.input_dim, n2.output_dim))
            try:
                setattr(n2, second, d + 1)
                rec.fail('accepted-dims', '%s with %s=%d then took %s=%d' % (spec.name, first, d, second, d + 1))
            except mdp.NodeException:
                rec.event('malformed_rejected')
            rec.require(n2.input_dim == d and n2.output_dim == d, 'preserved-dims', lambda: '%s: a refused dimension changed it to %s -> %s' % (
                spec.name, n2.input_dim, n2.output_dim))
    rec.case(spec.name, d, X.shape[1])


def _ctor_cases(rng):
    d = 4
    X = C.smooth_mix(rng, 120, d)
    Xm = C.mix(rng, 300, d)
    q = np.linalg.qr(rng.randn(d, d))[0]
    n = mdp.nodes
    yield 'GNG', [rng.randn(d), rng.randn(d)], lambda a: n.GrowingNeuralGasNode(start_poss=a, max_nodes=5), X, ()
    yield 'NeuralGas', [rng.randn(d) for _ in range(3)], \
        lambda a: n.NeuralGasNode(num_nodes=3, start_poss=a, max_epochs=2), X[:40], ()
    yield 'FastICA', [q], lambda a: n.FastICANode(guess=a[0], approach='symm'), Xm, ()
    yield 'CCIPCA', [rng.randn(d, 2)], lambda a: n.CCIPCANode(init_eigen_vectors=a[0], output_dim=2), X, ()
    yield 'CCIPCAW', [rng.randn(d, 2)], lambda a: n.CCIPCAWhiteningNode(init_eigen_vectors=a[0], output_dim=2), X, ()
    yield 'MCA', [rng.randn(d, 2)], lambda a: n.MCANode(init_eigen_vectors=a[0], output_dim=2), Xm * 0.2, ()
    yield 'IncSFA', [rng.randn(d, 3), rng.randn(3, 2)], \
        lambda a: n.IncSFANode(init_pca_vectors=a[0], init_mca_vectors=a[1], whitening_output_dim=3,
                               output_dim=2), X, ()
    yield 'RBFexp', [rng.randn(3, d), np.abs(rng.randn(3)) + .5], lambda a: n.RBFExpansionNode(a[0], a[1]), X, ()
    yield 'RBFexpM', [rng.randn(2, d), np.array([np.eye(d)] * 2)], lambda a: n.RBFExpansionNode(a[0], a[1]), X, ()
    yield 'ISFA', [q], lambda a: n.ISFANode(lags=2, RP=a[0], whitened=False), X, ()
    yield 'ISFAw', [np.array([1., .5]), np.array([1., .3])], \
        lambda a: n.ISFANode(lags=2, icaweights=a[0], sfaweights=a[1]), X, ()
    yield 'Vartime', [], lambda a: n.VartimeSFANode(), X, (np.abs(rng.randn(len(X))) + .5,)
    yield 'Switchboard', [np.array([3, 1, 0, 0])], lambda a: mdp.hinet.Switchboard(4, a[0]), X, ()
    yield 'Hopfield', [], lambda a: n.DiscreteHopfieldClassifier(), C.signdata(rng, 2, 24), ()


@CHECK.scenario(quick=25, thorough=300)
def constructor_arrays(rng, rec):
    """Arrays given to a constructor (initial values, centres, ...) stay the caller's."""
    for name, arrs, make, X, extra in list(_ctor_cases(rng)):
        before = [a.copy() for a in arrs]
        X0, e0 = X.copy(), [e.copy() for e in extra]
        node = make(arrs)
        if node.is_trainable():
            node.train(X, *extra)
            if not isinstance(node, mdp.OnlineNode):
                node.stop_training()
        y = node.execute(X)
        y0 = y.copy()
        rec.event('buffers_watched', len(arrs) + 1)
        rec.check(all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in zip(arrs, before)),
                  'constructor-array-mutated', '%s modified an array given to its constructor' % name)
        rec.check(np.array_equal(X, X0) and all(np.array_equal(a, b) for a, b in zip(extra, e0)),
                  'input-mutated', name)
        # the caller overwrites his arrays: the node must not notice
        for a in arrs:
            a[...] = 0
        y1 = node.execute(X)
        rec.check(np.array_equal(y1, y0), 'constructor-array-shared',
                  '%s still uses an array owned by the caller' % name)
        rec.case(name, rng.randint(1 << 30))


class _Same(mdp.PreserveDimNode):
    def is_trainable(self):
        return False


@CHECK.scenario(quick=20, thorough=200)
def preserved_dims(rng, rec):
    """Nodes that preserve the dimension never hold two different ones."""
    import mdp.nodes as mn
    cls = [_Same, mn.CutoffNode, mn.IdentityNode, mn.OnlineTimeDiffNode, mn.OnlineCenteringNode, mn.NoiseNode][rng.randint(6)]
    args = (0., 1.) if cls is mn.CutoffNode else ()
    n = cls(*args)
    want = None
    hist = []
    for _ in range(int(rng.randint(2, 6))):
        d = int(rng.randint(1, 4))
        how = int(rng.randint(3))
        hist.append((how, d))
        try:
            if how == 0:
                n.input_dim = d
            elif how == 1:
                n.output_dim = d
            elif n.is_trainable():
                n.train(rng.rand(3, d))
            else:
                n.execute(rng.rand(3, d))
            ok = True
        except mdp.NodeException:
            ok = False
            rec.event('malformed_rejected')
        rec.require(ok == (want in (None, d)), 'preserved-dims', lambda: '%s%s: %s' % (cls.__name__, hist, 'accepted' if ok else 'refused'))
        want = d if want is None else want
        rec.require(n.input_dim == want and n.output_dim == want, 'preserved-dims', lambda: '%s%s: %s -> %s' % (cls.__name__, hist, n.input_dim, n.output_dim))
    rec.case(cls.__name__, str(hist))
