"""P31 gradient extension: reported Jacobians against numerical differentiation of the plain execution."""
import numpy as np
import mdp
import bimdp
from bimdp.hinet import (BiFlowNode, CloneBiLayer, BiSwitchboard, Rectangular2dBiSwitchboard,
                         ChannelBiSwitchboard, DoubleRect2dBiSwitchboard)
from mdp import hinet
from harness.core import Check, Skip

CHECK = Check('P31', 'A case is one differentiable structure (node, nested layer, bi-flow, nested bi-flow, clone layer '
              'with or without copies) with the point set and the gradient or message it is started with. The monitor '
              'differentiates the observable plain execution numerically (Richardson extrapolated central differences) '
              'and compares it, the data output and the outgoing message with those of the gradient call. Distinct by '
              'structure, dimensions, number of points and start gradient.')
CHECK.expect_events(jacobians=150, flows=40, layers=40, incoming=20, refused=20, plain_equal=150, stop_calls=8)


def first(r):
    return r[0] if isinstance(r, tuple) else r


def numjac(f, x, h):
    def cd(h):
        return np.stack([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(x.shape[1])], axis=2)
    return (4 * cd(h / 2) - cd(h)) / 3


# ---------------------------------------------------------------- a user-defined differentiable node

class TanhMix(bimdp.BiNode):
    """y = tanh(x W): a node a user could write, with its own gradient."""

    def __init__(self, W, **kw):
        super(TanhMix, self).__init__(input_dim=W.shape[0], output_dim=W.shape[1], dtype='d', **kw)
        self.W = W

    def is_trainable(self):
        return False

    def is_invertible(self):
        return False

    def _execute(self, x):
        return np.tanh(x.dot(self.W))


class PlainTanh(mdp.Node):
    def __init__(self, W):
        super(PlainTanh, self).__init__(input_dim=W.shape[0], output_dim=W.shape[1], dtype='d')
        self.W = W

    def is_trainable(self):
        return False

    def is_invertible(self):
        return False

    def _execute(self, x):
        return np.tanh(x.dot(self.W))


def _tanh_grad(self, x):
    s = 1 - np.tanh(x.dot(self.W)) ** 2
    return s[:, :, None] * self.W.T[None]


mdp.extension_method('gradient', TanhMix, '_get_grad')(_tanh_grad)
mdp.extension_method('gradient', PlainTanh, '_get_grad')(_tanh_grad)


# ---------------------------------------------------------------- makers

def data(rng, n, d):
    x = rng.randn(n, d)
    return x + np.cumsum(rng.randn(n, d), axis=0) * 0.05


def sfa(rng, i, o, bi, two=False, vt=False, dtype=None):
    N = bimdp.nodes if bi else mdp.nodes
    if vt:
        n = (N.VartimeSFABiNode if bi else N.VartimeSFANode)(input_dim=i, output_dim=o)
    elif two:
        n = (N.SFA2BiNode if bi else N.SFA2Node)(input_dim=i, output_dim=o, dtype=dtype)
    else:
        n = (N.SFABiNode if bi else N.SFANode)(input_dim=i, output_dim=o, dtype=dtype)
    x = data(rng, 120 + 8 * i, i) * rng.uniform(0.5, 2, i) + rng.uniform(-1, 1, i)
    n.train(x.astype(dtype or 'd'))
    n.stop_training()
    return n


def leaf(rng, i, bi, budget):
    """One differentiable node with input dimension i; budget limits the polynomial degree.
    Returns (node, log2 of degree, name)."""
    kinds = ['sfa', 'sfa', 'id', 'sw', 'sw', 'tanh', 'vt']
    if budget > 0:
        kinds += ['sfa2', 'sfa2', 'quad']
    k = str(rng.choice(kinds))
    if k == 'sfa':
        return sfa(rng, i, int(rng.randint(1, i + 1)), bi), 0, 'sfa'
    if k == 'vt':
        if rng.randint(2):
            return sfa(rng, i, int(rng.randint(1, i + 1)), bi, vt=True), 0, 'vt'
        k = 'tanh'
    if k == 'sfa2':
        m = i + i * (i + 1) // 2
        return sfa(rng, i, int(rng.randint(1, min(m, 6) + 1)), bi, two=True), 1, 'sfa2'
    if k == 'id':
        return (bimdp.nodes.IdentityBiNode if bi else mdp.nodes.IdentityNode)(input_dim=i), 0, 'id'
    if k == 'quad':
        n = (bimdp.nodes.QuadraticExpansionBiNode if bi else mdp.nodes.QuadraticExpansionNode)(input_dim=i)
        return n, 1, 'quad'
    if k == 'tanh':
        W = rng.randn(i, int(rng.randint(1, 6))) / np.sqrt(i)
        return (TanhMix if bi else PlainTanh)(W), 0, 'tanh'
    con = rng.randint(0, i, int(rng.randint(1, 8)))
    if rng.randint(2):
        con = rng.permutation(i)
    con = [int(c) for c in con] if rng.randint(2) else con
    if bi:
        return BiSwitchboard(input_dim=i, connections=con), 0, 'sw'
    if rng.randint(3) == 0 and set(int(c) for c in con) == set(range(i)):
        return hinet.MeanInverseSwitchboard(input_dim=i, connections=con), 0, 'msw'
    return hinet.Switchboard(input_dim=i, connections=con), 0, 'sw'


def ready(node, i):
    """Set the output dimension by one plain execution."""
    node.execute(np.zeros((2, i)))
    return node


def layer(rng, budget, depth):
    """A plain (possibly nested) layer: (node, input dim, degree, name)."""
    kind = str(rng.choice(['layer', 'clone', 'same']))
    if kind == 'clone':
        i = int(rng.randint(1, 4))
        n, b, nm = ready_leaf(rng, i, budget)
        k = int(rng.randint(1, 4))
        return hinet.CloneLayer(n, k), i * k, b, 'clone%d(%s)' % (k, nm)
    subs = []
    b = 0
    i0 = int(rng.randint(2, 5))
    for _ in range(int(rng.randint(1, 4))):
        if kind == 'layer' and depth and rng.randint(4) == 0:
            n, i, bb, nm = layer(rng, budget, depth - 1)
        else:
            i = i0 if kind == 'same' else int(rng.randint(1, 4))
            n, bb, nm = ready_leaf(rng, i, budget)
        subs.append((n, i, nm))
        b = max(b, bb)
    cls = hinet.Layer if kind == 'layer' else hinet.SameInputLayer
    return (cls([s[0] for s in subs]), i0 if kind == 'same' else sum(s[1] for s in subs), b,
            '%s(%s)' % (kind, ','.join(s[2] for s in subs)))


def ready_leaf(rng, i, budget):
    n, b, nm = leaf(rng, i, False, budget)
    return ready(n, i), b, nm


def bichain(rng, i, length, budget, depth):
    nodes, names = [], []
    d = i
    for _ in range(length):
        k = rng.randint(6)
        if k == 0 and depth:
            sub, nm, bb = bichain(rng, d, int(rng.randint(1, 3)), budget, depth - 1)
            n = BiFlowNode(bimdp.BiFlow(sub))
            nm = '[%s]' % nm
        elif k == 1 and d > 1:
            divs = [q for q in range(2, d + 1) if d % q == 0]
            q = int(rng.choice(divs))
            if depth and rng.randint(3) == 0:
                sub, nm, bb = bichain(rng, d // q, int(rng.randint(1, 3)), budget, 0)
                inner = BiFlowNode(bimdp.BiFlow(sub))
            else:
                inner, bb, nm = leaf(rng, d // q, True, budget)
            ready(inner, d // q)
            copies = bool(rng.randint(2))
            n = CloneBiLayer(inner, q, use_copies=copies)
            nm = 'clone%d%s(%s)' % (q, 'c' if copies else '', nm)
        else:
            n, bb, nm = leaf(rng, d, True, budget)
        budget -= bb
        ready(n, d)
        d = n.output_dim
        nodes.append(n)
        names.append(nm)
        if d > 14:
            m = int(rng.randint(2, 7))
            n = BiSwitchboard(input_dim=d, connections=[int(c) for c in rng.randint(0, d, m)])
            nodes.append(n)
            names.append('sw')
            d = m
    return nodes, '+'.join(names), max(0, 3 - budget)


# ---------------------------------------------------------------- the oracle

def compare(rec, key, f, x, y, g, what, start=None, h=1e-2, tol=1e-5, third=None):
    J = numjac(f, x, h)
    y0 = f(x)
    rec.require(np.shape(y) == y0.shape and np.allclose(y, y0, rtol=1e-9, atol=1e-9 * (1 + np.abs(y0).max(initial=0))),
                key + '-output', lambda: '%s: the data output of the gradient call is not the plain execution' % what)
    rec.event('plain_equal')
    want = J if start is None else np.einsum('noi,nik->nok', J, start)
    rec.require(isinstance(g, np.ndarray) and g.shape == want.shape, key + '-shape',
                lambda: '%s: gradient of shape %s, expected %s' % (what, np.shape(g), want.shape))
    scale = 1 + np.abs(want).max(initial=0) + np.abs(y0).max(initial=0)
    err = np.abs(g - want)
    # numerical trouble of the reference itself: compare two step sizes
    J2 = numjac(f, x, h / 3)
    unc = np.abs(J2 - J).max(initial=0) * (1 if start is None else 1 + np.abs(start).max(initial=0) * x.shape[1])
    if unc > 1e-2 * scale:
        raise Skip('reference derivative too inaccurate')
    rec.require(bool((err <= tol * scale + 10 * unc).all()), key,
                lambda: '%s: gradient differs from the derivative of the output by %.3g (scale %.3g, reference '
                        'uncertainty %.2g)' % (what, err.max(), scale, unc))
    rec.event('jacobians')


def run_bi(rec, rng, obj, f, x, key, what, start=None, extra=None):
    msg = {'method': 'gradient'}
    if start is not None:
        msg['grad'] = start
    if extra:
        msg.update(extra)
    x0, m0 = x.copy(), dict((k, (v.copy() if isinstance(v, np.ndarray) else v)) for k, v in msg.items())
    with mdp.extension('gradient'):
        res = obj(x, msg) if not isinstance(obj, bimdp.BiFlow) or rng.randint(2) else obj.execute(x, msg)
    rec.require(isinstance(res, tuple) and len(res) == 2, key + '-result',
                lambda: '%s: the gradient call returned %s' % (what, type(res)))
    rec.require(np.array_equal(x, x0), key + '-x', lambda: '%s: the input was changed' % what)
    if start is not None:
        rec.require(np.array_equal(start, m0['grad']), key + '-start', lambda: '%s: the incoming gradient was changed' % what)
        rec.event('incoming')
    y, out = res
    rec.require('grad' in out, key + '-nograd', lambda: '%s: no gradient in the message: %s' % (what, sorted(out)))
    if extra:
        for k, v in extra.items():
            rec.require(k in out and out[k] is not None and np.array_equal(out[k], v), key + '-msg',
                        lambda: '%s: message entry %r was lost or changed' % (what, k))
    compare(rec, key, f, x, y, out['grad'], what, start)
    return y, out


def points(rng, i):
    return rng.randn(int(rng.randint(1, 6)), i) * 0.7


def start_grad(rng, n, i):
    k = rng.randint(4)
    if k == 0:
        return rng.randn(n, i, int(rng.randint(1, 7)))
    return None


# ---------------------------------------------------------------- scenarios

@CHECK.scenario(quick=60, thorough=2500)
def single(rng, rec):
    """One bi node of every kind, by message."""
    i = int(rng.randint(1, 6))
    n, b, nm = leaf(rng, i, True, 1)
    ready(n, i)
    x = points(rng, i)
    st = start_grad(rng, len(x), i)
    extra = {'note': 'kept', 'n%d' % rng.randint(3): 5} if rng.randint(3) == 0 else None
    run_bi(rec, rng, n, lambda z: first(n.execute(z)), x, 'node', nm, st, extra)
    rec.case(('single', nm, i, n.output_dim, len(x), None if st is None else st.shape[2]))


@CHECK.scenario(quick=70, thorough=4000)
def flows(rng, rec):
    """Bi flows with nested flow nodes and clone layers."""
    i = int(rng.randint(1, 7))
    nodes, nm, b = bichain(rng, i, int(rng.randint(1, 5)), 2, 2)
    flow = bimdp.BiFlow(nodes)
    x = points(rng, i)
    st = start_grad(rng, len(x), i)
    extra = {'note': 'kept'} if rng.randint(4) == 0 else None
    obj = flow
    if rng.randint(4) == 0:
        obj = BiFlowNode(flow)
        nm = 'node[%s]' % nm
    f = lambda z: first(flow.execute(z))
    run_bi(rec, rng, obj, f, x, 'flow', nm, st, extra)
    rec.event('flows')
    rec.case(('flow', nm, i, len(x), None if st is None else st.shape[2]))
    # again, after the plain execution of other data: nothing may be remembered
    f(points(rng, i))
    run_bi(rec, rng, obj, f, points(rng, i), 'flow-again', nm)


@CHECK.scenario(quick=40, thorough=2000)
def clones(rng, rec):
    """Clone layers as the first node, alone, and switched between copies and a single instance."""
    q, i = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    if rng.randint(3) == 0:
        sub, nm, b = bichain(rng, i, int(rng.randint(1, 3)), 1, 0)
        inner = BiFlowNode(bimdp.BiFlow(sub))
    else:
        inner, b, nm = leaf(rng, i, True, 1)
    ready(inner, i)
    lay = CloneBiLayer(inner, q, use_copies=bool(rng.randint(2)))
    x = points(rng, q * i)
    lay.execute(x)
    f = lambda z: first(lay.execute(z))
    if rng.randint(2):
        run_bi(rec, rng, lay, f, x, 'clonelayer', 'clone%d(%s)' % (q, nm), start_grad(rng, len(x), q * i))
        lay.use_copies = not lay.use_copies
        run_bi(rec, rng, lay, f, x, 'clonelayer', 'clone%d(%s) switched' % (q, nm), start_grad(rng, len(x), q * i))
    else:
        flow = bimdp.BiFlow([lay, sfa(rng, lay.output_dim, int(rng.randint(1, lay.output_dim + 1)), True)])
        run_bi(rec, rng, flow, lambda z: first(flow.execute(z)), x, 'clonelayer-flow', 'clone%d(%s)+sfa' % (q, nm))
    y = lay.execute(x)
    rec.require(isinstance(y, np.ndarray), 'after', lambda: 'plain execution returns %s after a gradient call' % type(y))
    rec.event('layers')
    rec.case(('clones', q, i, nm, lay.use_copies, len(x)))


@CHECK.scenario(quick=60, thorough=3000)
def layers(rng, rec):
    """Layers of any nesting by their gradient methods."""
    lay, i, b, nm = layer(rng, 1, 2)
    x = points(rng, i)
    ready(lay, i)
    st = start_grad(rng, len(x), i)
    f = lay.execute
    with mdp.extension('gradient'):
        direct = lay._get_grad(x)
        res = lay._gradient(x) if st is None else lay._gradient(x, st)
        stop = lay._stop_gradient(x) if st is None else lay._stop_gradient(x, st)
    y, msg = res
    compare(rec, 'layer', f, x, y, msg['grad'], nm, st)
    compare(rec, 'layer-get', f, x, y, direct, nm)
    rec.require(isinstance(stop, tuple) and np.array_equal(stop[0]['grad'], msg['grad']) and stop[1] == 1,
                'layer-stop', lambda: '%s: stop gradient differs from gradient' % nm)
    rec.event('stop_calls')
    rec.event('layers')
    rec.case(('layers', nm, i, len(x), None if st is None else st.shape[2]))


@CHECK.scenario(quick=20, thorough=800)
def boards(rng, rec):
    """Channel and rectangular switchboards feeding clone layers (the documented use)."""
    k = int(rng.randint(3))
    ch = int(rng.randint(1, 3))
    if k == 0:
        sw = Rectangular2dBiSwitchboard(in_channels_xy=(int(rng.randint(2, 5)), int(rng.randint(2, 5))),
                                        field_channels_xy=2, field_spacing_xy=int(rng.randint(1, 3)), in_channel_dim=ch,
                                        ignore_cover=True)
    elif k == 1:
        s = 2 * int(rng.randint(2, 4))
        sw = DoubleRect2dBiSwitchboard(in_channels_xy=s, field_channels_xy=2, in_channel_dim=ch)
    else:
        n, m = int(rng.randint(2, 5)), int(rng.randint(1, 4))
        chans = rng.randint(0, n, (m, 2))
        con = np.concatenate([np.concatenate([np.arange(c * ch, (c + 1) * ch) for c in row]) for row in chans])
        sw = ChannelBiSwitchboard(input_dim=n * ch, connections=[int(c) for c in con], out_channel_dim=2 * ch, in_channel_dim=ch)
    q = sw.output_channels
    inner = sfa(rng, sw.out_channel_dim, int(rng.randint(1, 3)), True, two=bool(rng.randint(2)))
    if rng.randint(2):
        inner = BiFlowNode(bimdp.BiFlow([inner]))
    flow = bimdp.BiFlow([sw, CloneBiLayer(inner, q, use_copies=bool(rng.randint(2)))])
    x = points(rng, sw.input_dim)
    run_bi(rec, rng, flow, lambda z: first(flow.execute(z)), x, 'board', type(sw).__name__, start_grad(rng, len(x), sw.input_dim))
    rec.event('flows')
    rec.case(('boards', k, sw.input_dim, q, ch, len(x)))


@CHECK.scenario(quick=15, thorough=150)
def single_precision(rng, rec):
    """float32 nodes: polynomial degree at most two, so wide exact differences."""
    i = int(rng.randint(1, 5))
    two = bool(rng.randint(2))
    n = sfa(rng, i, int(rng.randint(1, i + 1)), True, two=two, dtype='f')
    x = points(rng, i).astype('f')
    with mdp.extension('gradient'):
        y, msg = n.execute(x, {'method': 'gradient'})
    compare(rec, 'float32', lambda z: np.asarray(n.execute(np.asarray(z, 'f')), 'd') if True else None,
            x.astype('d'), np.asarray(n.execute(x), 'd'), np.asarray(msg['grad'], 'd'), 'float32 sfa2=%s' % two, h=0.5, tol=3e-4)
    rec.require(np.allclose(y, n.execute(x), rtol=1e-4, atol=1e-4), 'float32-y', 'data output differs')
    rec.case(('f32', i, two, n.output_dim, len(x)))


@CHECK.scenario(quick=25, thorough=150)
def refusals(rng, rec):
    """What is not differentiable, trained or active is refused, never answered."""
    i = int(rng.randint(2, 5))
    x = points(rng, i)
    k = int(rng.randint(4))

    def refused(fn, excs, what):
        try:
            r = fn()
        except excs:
            rec.event('refused')
        else:
            rec.require(False, 'refused', '%s was answered with %s' % (what, type(r)))
    if k == 0:
        cls = [bimdp.nodes.PCABiNode, bimdp.nodes.WhiteningBiNode, bimdp.nodes.CuBICABiNode][int(rng.randint(3))]
        n = cls(input_dim=i)
        n.train(data(rng, 200, i))
        n.stop_training()
        n.execute(x)
        with mdp.extension('gradient'):
            refused(lambda: n.execute(x, {'method': 'gradient'}), NotImplementedError, cls.__name__)
            flow = bimdp.BiFlow([sfa(rng, i, i, True), n])
            refused(lambda: flow.execute(x, {'method': 'gradient'}), (NotImplementedError, mdp.MDPException), 'flow')
            lay = hinet.Layer([sfa(rng, i, i, False), n])
            refused(lambda: lay._gradient(np.hstack([x, x])), NotImplementedError, 'layer')
    elif k == 1:
        cls = [bimdp.nodes.SFABiNode, bimdp.nodes.SFA2BiNode][int(rng.randint(2))]
        n = cls(input_dim=i, output_dim=1)
        n.train(data(rng, 100, i))
        with mdp.extension('gradient'):
            refused(lambda: n._gradient(x), mdp.TrainingException, 'training node')
            refused(lambda: n.execute(x, {'method': 'gradient'}), mdp.MDPException, 'training node')
        n.stop_training()
        with mdp.extension('gradient'):
            y, m = n.execute(x, {'method': 'gradient'})
        compare(rec, 'late', lambda z: n.execute(z), x, y, m['grad'], cls.__name__)
    else:
        n, b, nm = leaf(rng, i, True, 1)
        if k == 3:
            n = CloneBiLayer(n, 1)
        ready(n, i)
        before = n.execute(x)
        with mdp.extension('gradient'):
            n.execute(x, {'method': 'gradient'})
        refused(lambda: n.execute(x, {'method': 'gradient'}), (mdp.MDPException, AttributeError), 'inactive extension')
        rec.require(not hasattr(n, '_gradient') or k == 3 and not hasattr(type(n), '_gradient'), 'left', 'gradient methods stay after deactivation')
        rec.require(np.array_equal(first(n.execute(x)), first(before)), 'after', 'plain execution changed')
    rec.case(('refusals', k, i, len(x)))
