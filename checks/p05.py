"""P05 inversion."""
import numpy as np
import mdp
import mdp.nodes as mn
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P05', 'A case is one trained node / flow / layer / switchboard with one input batch: the batch '
              'is executed, inverted and executed again, and the result compared with the input (full '
              'dimension) or with the least-squares / feature-preserving definition (reduced dimension); '
              'non-invertible objects must refuse. Distinct by configuration, dtype and seed.')
CHECK.expect_events(round_trips=1500, refusals=300)


def tol_for(dt, base=1e-6):
    return 2e-2 if dt == np.dtype('f') else base


def judge(rec, name, obj, x, kind, dt, run=None, is_orth=False):
    run = run or obj.execute
    y = run(x)
    sc = max(C.scale(y), C.scale(x))
    if sc > 1e4:
        raise Skip('numeric')
    y_in = y.copy()
    r = obj.inverse(y_in)
    rec.require(np.array_equal(y_in, y), 'input-mutated', name)
    rec.event('round_trips')
    rec.require(r.shape == x.shape, 'inverse-shape', '%s: %s for input %s' % (name, r.shape, x.shape))
    tol = tol_for(dt)
    if kind == 'exact':
        rec.require(C.close(r, x, tol), 'not-inverse',
                    lambda: '%s (%s): inverse(execute(x)) differs from x by %g' % (name, dt, C.maxdiff(r, x)))
    if kind in ('exact', 'proj', 'orth'):
        y2 = run(r)
        rec.require(C.close(y2, y, tol), 'features-changed',
                    lambda: '%s (%s): execute(inverse(y)) differs from y by %g' % (name, dt, C.maxdiff(y2, y)))
    if kind == 'orth':
        # least squares: x - r is orthogonal to every difference of reconstructions
        d = r - obj.inverse(np.asarray(y[::-1], dtype=y.dtype))
        g = (x - r).astype('d').dot(d.T.astype('d'))
        rec.require(np.abs(g).max() <= tol * 10 * max(1, C.scale(x) ** 2), 'not-least-squares',
                    '%s (%s): residual not orthogonal to the reconstructions (%g)' % (name, dt, np.abs(g).max()))
    return y, r


@CHECK.each([(s.name, s) for s in C.SPECS if s.inv and s.inv != 'any'], quick=25, thorough=400)
def nodes(rng, rec, spec):
    dt = np.dtype(spec.dtypes[rng.randint(len(spec.dtypes))])
    node, X, E = spec.trained(rng, dt, seed=rng.randint(1 << 30))
    rec.require(node.is_invertible(), 'flag', spec.name)
    x = X[:rng.randint(1, 30)] if rng.rand() < 0.5 else spec.xin(rng, rng.randint(2, 30), dt)
    if len(x) < spec.minexec:
        x = X[:spec.minexec]
    kind = spec.inv
    y, r = judge(rec, spec.name, node, x, kind, dt, run=lambda z: spec.run(node, z))
    # arbitrary points of the output space
    if kind == 'exact' and not spec.classifier:
        z = (rng.randn(*y.shape) * (1 + C.scale(y)) * 0.3).astype(y.dtype)
        zi = node.inverse(z)
        z2 = spec.run(node, zi)
        rec.require(C.close(z2, z, tol_for(dt)), 'not-inverse',
                    lambda: '%s (%s): execute(inverse(z)) differs from z by %g' % (spec.name, dt, C.maxdiff(z2, z)))
    rec.case(spec.name, str(dt), len(x), rng.randint(1 << 30))


@CHECK.each([(s.name, s) for s in C.SPECS], quick=4, thorough=40)
def refusal(rng, rec, spec):
    """is_invertible() agrees with what inverse() does."""
    dt = np.dtype(spec.dtypes[0])
    node, X, E = spec.trained(rng, dt, seed=rng.randint(1 << 30))
    x = spec.xin(rng, 10, dt)
    y = spec.run(node, x)
    expect = spec.inv is not None
    rec.require(node.is_invertible() == expect, 'flag', '%s.is_invertible() == %s' % (spec.name, node.is_invertible()))
    if expect:
        r = node.inverse(y)
        rec.require(isinstance(r, np.ndarray) and r.shape[1] == node.input_dim, 'inverse-shape', spec.name)
        rec.event('round_trips')
    else:
        try:
            r = node.inverse(np.asarray(y))
            rec.fail('inverted-anyway', '%s is not invertible but inverse() returned %r' % (spec.name, type(r)))
        except mdp.IsNotInvertibleException:
            rec.event('refusals')
    rec.case(spec.name, rng.randint(1 << 30))


@CHECK.scenario(quick=150, thorough=2500)
def pca_family(rng, rec):
    """Partial inversions, all output dimensions and solver options."""
    d = rng.randint(2, 7)
    k = rng.randint(1, d + 1)
    dt = np.dtype('df'[rng.rand() < 0.2])
    X = C.smooth_mix(rng, rng.randint(40, 200), d, dt)
    cls, kw = [(mn.PCANode, {}), (mn.PCANode, dict(svd=True)), (mn.PCANode, dict(reduce=True)),
               (mn.WhiteningNode, {}), (mn.WhiteningNode, dict(svd=True)), (mn.NIPALSNode, {}),
               (mn.SFANode, {}), (mn.SFANode, dict(rank_deficit_method='reg')), (mn.CuBICANode, {})][rng.randint(9)]
    if dt == np.dtype('f') and cls in (mn.NIPALSNode, mn.SFANode, mn.CuBICANode):
        dt = np.dtype('d')
        X = X.astype(dt)
    if cls is mn.CuBICANode:
        X = C.mix(rng, 300, d, dt)
        node = cls(white_comp=k)
    else:
        node = cls(output_dim=k, **kw)
    node.train(X)
    node.stop_training()
    x = X[:20]
    full = k == d
    orth = cls in (mn.PCANode, mn.NIPALSNode)
    name = '%s(output_dim=%d of %d, %s)' % (cls.__name__, k, d, kw)
    y, r = judge(rec, name, node, x, 'exact' if full else 'orth' if orth else 'proj', dt)
    # whatever is dropped is dropped around the mean of the training data
    back = node.inverse(node.execute(X)).astype('d').mean(0)
    rec.require(C.close(back, X.astype('d').mean(0), 1e-2 if dt == np.dtype('f') else 1e-6), 'mean-lost',
                lambda: '%s: the reconstructed training data have mean %s instead of %s' % (name, back, X.mean(0)))
    if issubclass(cls, mn.PCANode):
        n = rng.randint(1, k + 1)
        yn = node.execute(x, n)
        rec.require(C.close(yn, y[:, :n], tol_for(dt)), 'partial-execute', name)
        v = node.get_recmatrix()
        want = yn.dot(v[:n]) + node.avg
        for got in (node.inverse(y, n), node.inverse(y, n=n)):
            rec.require(C.close(got, want, tol_for(dt)), 'partial-inverse', '%s n=%d' % (name, n))
            rec.event('round_trips')
        p, q = node.get_projmatrix(), node.get_recmatrix()
        rec.require(C.close(p.T.dot(q.T), np.eye(k), tol_for(dt)), 'matrices', name)
    rec.case(name, str(dt), rng.randint(1 << 30))


POOL = ['PCA', 'PCA2', 'Whitening', 'SFA', 'CuBICA', 'Normalize', 'Identity', 'Histogram', 'NIPALS', 'SFA2dim',
        'SwitchboardPerm', 'UserTwoPhase', 'CloneLayer', 'Layer', 'Signum']


def rand_chain(rng, k, x):
    nodes, kinds = [], []
    for _ in range(k):
        s = C.BY_NAME[POOL[rng.randint(len(POOL))]]
        if s.name in ('SwitchboardPerm', 'CloneLayer', 'Layer') and x.shape[1] != 4:
            continue
        if x.shape[1] < 2 or (s.name in ('PCA2', 'SFA2dim') and x.shape[1] < 3):
            continue
        nd = s.make()
        s.train(nd, [(x, None)])
        x = nd.execute(x)
        nodes.append(nd)
        kinds.append(s.inv)
    return nodes, kinds


@CHECK.scenario(quick=250, thorough=3000)
def flows(rng, rec):
    X = C.smooth_mix(rng, 240, 4)
    nodes, kinds = rand_chain(rng, rng.randint(1, 6), X)
    if not nodes:
        raise Skip()
    flow = mdp.Flow(nodes)
    x = C.smooth_mix(rng, rng.randint(1, 30), 4)
    kind = 'exact' if all(k == 'exact' for k in kinds) else 'proj'
    name = 'Flow(%s)' % [type(n).__name__ for n in nodes]
    form = rng.randint(3)
    if form == 0:
        obj = flow
    elif form == 1:
        obj = mdp.hinet.FlowNode(flow)
        rec.require(obj.is_invertible(), 'flag', name)
    else:
        obj = mdp.hinet.Layer([mdp.hinet.FlowNode(flow), mn.IdentityNode(input_dim=1)])
        rec.require(obj.is_invertible(), 'flag', name)
        x = np.hstack([x, rng.randn(len(x), 1)])
    y, r = judge(rec, name, obj, x, kind, np.dtype('d'))
    # by hand
    z = y if form < 2 else y[:, :-1]
    for n in nodes[::-1]:
        z = n.inverse(z)
    rec.require(C.close(r if form < 2 else r[:, :-1], z, 1e-12), 'flow-inverse', name)
    if form == 0:
        it = flow.inverse([y[:len(y) // 2], y[len(y) // 2:]] if len(y) > 1 else [y])
        rec.require(C.close(it, r, 1e-9), 'flow-inverse', name + ' iterator')
        # a non-invertible member: refused, naming the member
        bad = mdp.Flow(nodes + [mn.QuadraticExpansionNode()])
        yb = bad.execute(x)
        try:
            bad.inverse(yb)
            rec.fail('inverted-anyway', name + ' with expansion')
        except mdp.FlowException as e:
            rec.event('refusals')
            rec.require('QuadraticExpansionNode' in str(e), 'culprit', str(e)[:300])
    rec.case(name, form, rng.randint(1 << 30))


@CHECK.scenario(quick=200, thorough=3000)
def layers(rng, rec):
    n = rng.randint(1, 5)
    dims = rng.randint(1, 4, size=n)
    specs = []
    for d in dims:
        c = rng.randint(4)
        specs.append([lambda d: mn.PCANode(input_dim=int(d)), lambda d: mn.WhiteningNode(input_dim=int(d)),
                      lambda d: mn.IdentityNode(input_dim=int(d)), lambda d: mn.NormalizeNode(input_dim=int(d))][c](d))
    layer = mdp.hinet.Layer(specs)
    X = C.smooth_mix(rng, 150, int(dims.sum()))
    if layer.is_trainable():
        while layer.is_training():
            layer.train(X)
            layer.stop_training()
    rec.require(layer.is_invertible(), 'flag', 'layer')
    x = X[:rng.randint(1, 20)]
    y, r = judge(rec, 'Layer%s' % list(dims), layer, x, 'exact', np.dtype('d'))
    a = b = 0
    for nd in specs:
        rec.require(C.close(r[:, a:a + nd.input_dim], nd.inverse(y[:, b:b + nd.output_dim]), 1e-12), 'layer-inverse',
                    str(list(dims)))
        a += nd.input_dim
        b += nd.output_dim
    # clone layer
    nd = mn.WhiteningNode(input_dim=2)
    m = rng.randint(1, 4)
    cl = mdp.hinet.CloneLayer(nd, m)
    Xc = C.smooth_mix(rng, 150, 2 * m)
    cl.train(Xc)
    cl.stop_training()
    judge(rec, 'CloneLayer', cl, Xc[:9], 'exact', np.dtype('d'))
    # a non-invertible part makes the whole refuse
    bad = mdp.hinet.Layer([mn.IdentityNode(input_dim=2), mn.QuadraticExpansionNode(input_dim=2)])
    yb = bad.execute(X[:5, :1].repeat(4, 1))
    rec.require(not bad.is_invertible(), 'flag', 'layer with expansion')
    try:
        bad.inverse(yb)
        rec.fail('inverted-anyway', 'layer')
    except mdp.IsNotInvertibleException:
        rec.event('refusals')
    sl = mdp.hinet.SameInputLayer([mn.IdentityNode(input_dim=2), mn.IdentityNode(input_dim=2)])
    ys = sl.execute(X[:5, :1].repeat(2, 1))
    rec.require(not sl.is_invertible(), 'flag', 'SameInputLayer')
    try:
        sl.inverse(ys)
        rec.fail('inverted-anyway', 'SameInputLayer')
    except mdp.IsNotInvertibleException:
        rec.event('refusals')
    rec.case(list(dims), m, rng.randint(1 << 30))


@CHECK.scenario(quick=300, thorough=4000)
def switchboards(rng, rec):
    d = rng.randint(1, 9)
    dt = np.dtype(['d', 'f', 'i', 'h'][rng.randint(4)])
    x = (rng.randn(rng.randint(1, 8), d) * 50).astype(dt)
    perm = rng.permutation(d)
    sb = mdp.hinet.Switchboard(d, perm)
    rec.require(sb.is_invertible(), 'flag', 'permutation')
    judge_sb(rec, sb, x, 'permutation %s' % perm)
    con = rng.randint(d, size=rng.randint(1, 2 * d + 1))
    sb = mdp.hinet.Switchboard(d, con)
    y = sb.execute(x)
    isperm = len(con) == d and len(set(con)) == d
    rec.require(sb.is_invertible() == isperm, 'flag', str(con))
    if not isperm:
        try:
            sb.inverse(y)
            rec.fail('inverted-anyway', str(con))
        except mdp.IsNotInvertibleException:
            rec.event('refusals')
    # mean inverse
    ms = mdp.hinet.MeanInverseSwitchboard(d, con)
    rec.require(ms.is_invertible(), 'flag', 'MeanInverse')
    y = ms.execute(x)
    r = ms.inverse(y)
    rec.event('round_trips')
    used = np.isin(np.arange(d), con)
    rec.require(r.dtype == ms.dtype, 'inverse-dtype', 'MeanInverseSwitchboard: %s for %s' % (r.dtype, dt))
    rec.require(C.close(r[:, used], x[:, used], 1e-5) and not r[:, ~used].any(), 'mean-inverse', '%s' % con)
    z = (rng.randn(*y.shape) * 30).astype('d')
    ms = mdp.hinet.MeanInverseSwitchboard(d, con)
    r = ms.inverse(z)
    for j in range(d):
        want = z[:, con == j].mean(axis=1) if (con == j).any() else np.zeros(len(z))
        rec.require(np.allclose(r[:, j], want), 'mean-inverse', '%s column %d' % (con, j))
    rec.case(d, str(dt), list(con), list(perm))


def judge_sb(rec, sb, x, name):
    y = sb.execute(x)
    r = sb.inverse(y)
    rec.event('round_trips')
    rec.require(np.array_equal(r, x) and r.dtype == x.dtype, 'not-inverse', name)


@CHECK.scenario(quick=60, thorough=800)
def before_and_after(rng, rec):
    """inverse() works as first call after training and from data alone (integer, float32 views)."""
    name = ['PCA', 'Whitening', 'SFA', 'CuBICA', 'NIPALS', 'FDA', 'Normalize'][rng.randint(7)]
    spec = C.BY_NAME[name]
    node, X, E = spec.trained(rng, 'd', seed=5)
    ref = node.copy()
    y = ref.execute(X[:10])
    r = node.inverse(np.asfortranarray(y))       # first call
    rec.event('round_trips')
    rec.require(C.close(r, X[:10], 1e-6), 'not-inverse', '%s inverse as first call' % name)
    # inverse closes an open last phase like execute does
    n2 = spec.make()
    spec.feed(n2, [(X, E)])
    r2 = n2.inverse(y) if n2.get_remaining_train_phase() == 1 else None
    if r2 is not None:
        rec.require(not n2.is_training(), 'stage', name)
        ok = C.close(r2, X[:10], 1e-6) or spec.sign
        rec.require(ok, 'not-inverse', '%s inverse closing the training' % name)
    rec.case(name, rng.randint(1 << 30))
