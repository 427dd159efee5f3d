"""P16 layers and flow-nodes equal the manual composition of their parts."""
import pickle
import numpy as np
import mdp
import mdp.nodes as mn
import mdp.hinet as mh
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P16', 'A case builds a random tree of layers, clone layers, same-input layers, switchboards and flow-nodes '
              '(any depth, any number of training phases per leaf, partly pretrained leaves, with and without '
              'supervision) and, from the same description, an independent composition of the leaves; both see the '
              'same chunks and every phase, output, inverse, dimension and copy must agree. Distinct by tree and chunks.')
CHECK.expect_events(trees=200, phases_compared=300, executions_compared=800, inverses_compared=40, copies=80,
                    deep_trees=60, shrunk=60)


# -- leaves: order sensitive, so that swapped slices, chunks or phases show -------------
class Leaf(mdp.Node):
    def __init__(self, uid, phases, out, input_dim=None, output_dim=None, dtype=None):
        self.uid, self.phases, self.out = uid, phases, out
        super(Leaf, self).__init__(input_dim, output_dim, dtype)
        self.state = RefLeaf(uid, phases, input_dim, out)

    def is_trainable(self):
        return self.phases > 0

    def is_invertible(self):
        return self.state.invertible()

    def _get_train_seq(self):
        return [(self._tr, self._st)] * self.phases

    def _set_input_dim(self, n):
        self._input_dim = n
        if getattr(self, 'state', None) is not None:
            self.state.d = n
        if self.out is not None and self._output_dim is None:
            self.output_dim = self.out

    def _tr(self, x, w=None):
        self.state.train(x, w)

    def _st(self):
        self.state.stop()

    def _execute(self, x, add=0):
        return self.state.execute(x) + add

    def _inverse(self, y):
        return self.state.inverse(y)


class RefLeaf(object):
    """The arithmetic of a leaf, used alone by the reference composition."""
    def __init__(self, uid, phases, d, out):
        self.uid, self.n, self.d, self.out = uid, phases, d, out
        self.acc, self.phase, self.b = 0., 0, 0.
        self.calls = []

    def clone(self):
        return pickle.loads(pickle.dumps(self))

    def invertible(self):
        return self.d is not None and (self.out or self.d) == self.d and self.uid % 3 != 0

    def phases(self):
        return self.n - self.phase

    def train(self, x, w=None):
        self.acc = 0.5 * self.acc + x.sum(axis=0) * (self.phase + 1) + x[0] + 2 * x[-1]
        if w is not None:
            self.acc = self.acc + w.sum() * (1 + 0.01 * self.uid)
        self.calls.append((self.phase, len(x)))

    def stop(self):
        self.b = 0.3 * self.b + self.acc
        self.acc = 0.
        self.phase += 1

    def matrix(self):
        o = self.out or self.d
        r = np.random.RandomState(self.uid)
        m = r.rand(self.d, o) - 0.5
        if o == self.d:
            m = m * 0.1 + np.eye(o)
        return m

    def offset(self):
        b = np.zeros(self.d) + self.b
        return np.tanh(0.1 * b)

    def execute(self, x):
        return np.dot(x + self.offset().astype(x.dtype), self.matrix().astype(x.dtype))

    def inverse(self, y):
        return np.dot(y, np.linalg.inv(self.matrix())) - self.offset()


class RefBoard(object):
    def __init__(self, d, conn):
        self.d, self.conn = d, conn

    def phases(self):
        return 0

    def odim(self):
        return len(self.conn)

    def execute(self, x):
        return x[:, self.conn]

    def invertible(self):
        return sorted(self.conn) == list(range(self.d))

    def inverse(self, y):
        x = np.zeros((len(y), self.d))
        for k, c in enumerate(self.conn):
            x[:, c] = y[:, k]
        return x


class RefLayer(object):
    def __init__(self, parts, same=False):
        self.parts, self.same = parts, same
        self.left = max([p.phases() for p in parts] + [0])

    def phases(self):
        return self.left

    def slices(self):
        at = 0
        for p in self.parts:
            if self.same:
                yield p, slice(None)
            else:
                yield p, slice(at, at + idim(p))
                at += idim(p)

    def train(self, x, w=None):
        for p, s in self.slices():
            if p.phases():
                p.train(x[:, s], w)

    def stop(self):
        for p in self.parts:
            if p.phases():
                p.stop()
        self.left -= 1

    def execute(self, x):
        return np.concatenate([p.execute(x[:, s]) for p, s in self.slices()], axis=1)

    def invertible(self):
        return not self.same and all(p.invertible() for p in self.parts)

    def inverse(self, y):
        out, at = [], 0
        for p in self.parts:
            out.append(p.inverse(y[:, at:at + odim(p)]))
            at += odim(p)
        return np.concatenate(out, axis=1)


class RefClone(object):
    def __init__(self, part, n):
        self.part, self.k = part, n

    def phases(self):
        return self.part.phases()

    def train(self, x, w=None):
        d = idim(self.part)
        for i in range(self.k):
            self.part.train(x[:, i * d:(i + 1) * d], w)

    def stop(self):
        self.part.stop()

    def execute(self, x):
        d = idim(self.part)
        return np.concatenate([self.part.execute(x[:, i * d:(i + 1) * d]) for i in range(self.k)], axis=1)

    def invertible(self):
        return self.part.invertible()

    def inverse(self, y):
        o = odim(self.part)
        return np.concatenate([self.part.inverse(y[:, i * o:(i + 1) * o]) for i in range(self.k)], axis=1)


class RefFlow(object):
    def __init__(self, parts):
        self.parts = parts

    def phases(self):
        return sum(p.phases() for p in self.parts)

    def _current(self):
        return [i for i, p in enumerate(self.parts) if p.phases()][0]

    def train(self, x, w=None):
        i = self._current()
        for p in self.parts[:i]:
            x = p.execute(x)
        self.parts[i].train(x, w)

    def stop(self):
        self.parts[self._current()].stop()

    def execute(self, x):
        for p in self.parts:
            x = p.execute(x)
        return x

    def invertible(self):
        return all(p.invertible() for p in self.parts)

    def inverse(self, y):
        for p in self.parts[::-1]:
            y = p.inverse(y)
        return y


def idim(p):
    if isinstance(p, RefLeaf) or isinstance(p, RefBoard):
        return p.d
    if isinstance(p, RefClone):
        return idim(p.part) * p.k
    if isinstance(p, RefLayer):
        return idim(p.parts[0]) if p.same else sum(idim(q) for q in p.parts)
    return idim(p.parts[0])


def odim(p):
    if isinstance(p, RefLeaf):
        return p.out or p.d
    if isinstance(p, RefBoard):
        return len(p.conn)
    if isinstance(p, RefClone):
        return odim(p.part) * p.k
    if isinstance(p, RefLayer):
        return sum(odim(q) for q in p.parts)
    return odim(p.parts[-1])


# -- random trees --------------------------------------------------------------
class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.uid = int(rng.randint(1000))
        self.leaves = []
        self.desc = []

    def leaf(self, d, late=False):
        r = self.rng
        self.uid += 1
        out = None if r.rand() < 0.4 else int(r.randint(1, 5))
        phases = int(r.choice([0, 1, 1, 2, 3]))
        ref = RefLeaf(self.uid, phases, d, out)
        node = Leaf(self.uid, phases, out, input_dim=None if late else d)
        if not late and r.rand() < 0.4:
            node.output_dim = out or d
        # pretrained up to some phase
        pre = int(r.randint(0, phases + 1)) if phases and r.rand() < 0.3 else 0
        if pre and not late:
            for _ in range(pre):
                x = r.rand(3, d)
                node.train(x)
                node.stop_training()
                ref.train(x)
                ref.stop()
        elif late:
            pre = 0
        self.leaves.append((node, ref))
        self.desc.append(('leaf', d, out, phases, pre))
        return node, ref

    def tree(self, d, depth, late=False):
        r = self.rng
        kind = 'leaf' if depth == 0 else str(r.choice(['leaf', 'layer', 'clone', 'same', 'flow', 'flow', 'board']))
        if late and kind in ('layer', 'clone', 'same', 'board') and r.rand() < 0.5:
            kind = 'flow'
        self.desc.append((kind, d))
        if kind == 'leaf':
            return self.leaf(d, late)
        if kind == 'board':
            conn = [int(c) for c in (r.permutation(d) if r.rand() < 0.5 else r.randint(0, d, size=int(r.randint(1, 7))))]
            return mh.Switchboard(d, conn), RefBoard(d, conn)
        if kind == 'layer':
            cuts = sorted(set(int(c) for c in r.randint(1, d, size=int(r.randint(0, 3))))) if d > 1 else []
            widths = np.diff([0] + cuts + [d])
            pairs = [self.tree(int(w), depth - 1) for w in widths]
            return mh.Layer([a for a, _ in pairs]), RefLayer([b for _, b in pairs])
        if kind == 'same':
            pairs = [self.tree(d, depth - 1) for _ in range(int(r.randint(1, 4)))]
            return mh.SameInputLayer([a for a, _ in pairs]), RefLayer([b for _, b in pairs], same=True)
        if kind == 'clone':
            ks = [k for k in (1, 2, 3, 4) if d % k == 0]
            k = int(r.choice(ks))
            a, b = self.tree(d // k, depth - 1)
            return mh.CloneLayer(a, n_nodes=k), RefClone(b, k)
        parts = []
        dd = d
        for i in range(int(r.randint(1, 4))):
            a, b = self.tree(dd, depth - 1, late=late if i == 0 else bool(r.rand() < 0.3))
            parts.append((a, b))
            dd = odim(b)
        cls = mdp.Flow if r.rand() < 0.8 else mdp.CheckpointFlow
        return mh.FlowNode(cls([a for a, _ in parts])), RefFlow([b for _, b in parts])


def chunks(rng, d, dtype, sup):
    out = []
    for _ in range(int(rng.randint(1, 5))):
        x = (rng.rand(int(rng.randint(1, 7)), d) * 4 - 2).astype(dtype)
        out.append((x, rng.rand(3) if sup and rng.rand() < 0.8 else None))
    return out


def close(a, b, tol=1e-9):
    return a.shape == b.shape and (a.size == 0 or float(np.abs(a - b).max()) <= tol * (1 + float(np.abs(b).max())))


def build(rng, rec, depth):
    g = Gen(rng)
    d = int(rng.choice([2, 3, 4, 6, 6, 8]))
    node, ref = g.tree(d, depth, late=bool(rng.rand() < 0.2))
    return g, d, node, ref


def check_phase(rec, node, ref, where):
    left = ref.phases()
    rec.require(node.is_training() == (left > 0), 'phases', lambda: '%s: is_training %s with %d phases left' % (
        where, node.is_training(), left))
    if node.is_trainable():
        rec.require(node.get_remaining_train_phase() == left, 'phases', lambda: '%s: %d phases remain, expected %d' % (
            where, node.get_remaining_train_phase(), left))
    else:
        rec.require(left == 0, 'phases', '%s: not trainable but %d phases expected' % (where, left))


def run(rng, rec, node, ref, d, dtype, sup, tol):
    keep = None
    while ref.phases():
        check_phase(rec, node, ref, 'before a phase')
        for x, w in chunks(rng, d, dtype, sup):
            x0 = x.copy()
            if w is None:
                node.train(x)
            elif rng.rand() < 0.5:
                node.train(x, w)
            else:
                node.train(x, w=w)
            rec.require((x == x0).all(), 'input-changed', 'train changed its input')
            ref.train(x, w)
        rec.require(node.input_dim == d, 'dims', lambda: 'input_dim %s, expected %s' % (node.input_dim, d))
        if keep is None and rng.rand() < 0.3:
            keep = (node.copy(), pickle.dumps(ref))
        node.stop_training()
        ref.stop()
        rec.event('phases_compared')
    check_phase(rec, node, ref, 'after training')
    return keep


def compare(rng, rec, node, ref, d, dtype, tol, where=''):
    for _ in range(3):
        x = (rng.rand(int(rng.randint(1, 6)), d) * 4 - 2).astype(dtype)
        x0 = x.copy()
        y = node.execute(x)
        want = ref.execute(x)
        rec.require((x == x0).all(), 'input-changed', 'execute changed its input')
        rec.require(close(y, want, tol), where + 'execute', lambda: 'outputs differ from the composition: shapes %s %s, by %s' % (
            y.shape, want.shape, np.abs(y - want).max() if y.shape == want.shape else None))
        rec.require(y.dtype == np.dtype(dtype), where + 'dtype', lambda: 'output has type %s' % y.dtype)
        rec.event('executions_compared')
    rec.require(node.input_dim == d and node.output_dim == odim(ref), where + 'dims',
                lambda: 'dims %s->%s, expected %s->%s' % (node.input_dim, node.output_dim, d, odim(ref)))
    rec.require(bool(node.is_invertible()) == bool(ref.invertible()), where + 'invertible',
                lambda: 'is_invertible %s, parts say %s' % (node.is_invertible(), ref.invertible()))
    y = (rng.rand(4, odim(ref)) - 0.5).astype(dtype)
    if ref.invertible():
        x = node.inverse(y)
        want = ref.inverse(y.astype('d'))
        rec.require(close(x, want, tol * 1e3), where + 'inverse', lambda: 'inverse differs from the composition')
        rec.event('inverses_compared')
    else:
        try:
            node.inverse(y)
            bad = True
        except mdp.NodeException:
            bad = False
        rec.require(not bad, where + 'inverse', 'inverse accepted although a part is not invertible')


@CHECK.each([(str(k), k) for k in (1, 2, 3, 4)], quick=110, thorough=1500)
def tree(rng, rec, depth):
    g, d, node, ref = build(rng, rec, depth)
    dtype = str(rng.choice(['d', 'd', 'f']))
    if any(n.dtype is not None for n, _ in g.leaves):
        dtype = 'd'
    tol = 1e-9 if dtype == 'd' else 1e-4
    sup = rng.rand() < 0.5
    rec.event('trees')
    if depth >= 3:
        rec.event('deep_trees')
    # the composition of a flow must be possible with the original nodes
    keep = run(rng, rec, node, ref, d, dtype, sup, tol)
    # each leaf saw exactly its own data, in order
    for leaf, r in g.leaves:
        rec.require(leaf.state.calls == r.calls, 'leaf-calls', lambda: 'leaf trained with %s, expected %s' % (
            leaf.state.calls, r.calls))
    compare(rng, rec, node, ref, d, dtype, tol)
    # a copy is independent
    if rng.rand() < 0.5:
        c = node.copy()
        compare(rng, rec, c, ref, d, dtype, tol, 'copy:')
        rec.event('copies')
        ids = set(id(n) for n in leaves_of(node))
        rec.require(not any(id(n) in ids for n in leaves_of(c)), 'copy:shared', 'a copy shares a leaf with the original')
        for n in leaves_of(c):
            n.state.b = n.state.b + 5.
        compare(rng, rec, node, ref, d, dtype, tol, 'after-copy:')
    if keep is not None:
        # the copy made in the middle of the training goes on by itself
        c, r = keep[0], pickle.loads(keep[1])
        c.stop_training()
        r.stop()
        run(rng, rec, c, r, d, dtype, sup, tol)
        compare(rng, rec, c, r, d, dtype, tol, 'copy:')
        compare(rng, rec, node, ref, d, dtype, tol, 'after-copy:')
        rec.event('copies')
    rec.case(tuple(g.desc), dtype, sup)


def leaves_of(node):
    if isinstance(node, Leaf):
        return [node]
    if isinstance(node, mh.CloneLayer):
        assert all(n is node.node for n in node.nodes)
        return leaves_of(node.node)
    if isinstance(node, mh.Layer):
        return sum([leaves_of(n) for n in node.nodes], [])
    if isinstance(node, mh.FlowNode):
        return sum([leaves_of(n) for n in node.flow], [])
    return []


@CHECK.each([(str(k), k) for k in (1, 2, 3)], quick=60, thorough=800)
def in_flow(rng, rec, depth):
    """The same trees as parts of a flow trained with Flow.train."""
    d = int(rng.choice([2, 4, 6]))
    parts, gens = [], []
    dd = d
    for i in range(int(rng.randint(1, 4))):
        g = Gen(rng)
        a, b = g.tree(dd, depth)
        gens.append(g)
        parts.append((a, b))
        dd = odim(b)
    flow = mdp.Flow([a for a, _ in parts])
    data = []
    for a, b in parts:
        cs = [x for x, _ in chunks(rng, d, 'd', False)]
        data.append(cs if a.is_trainable() else None)
    rec.event('trees')
    for (a, b), cs in zip(parts, data):
        i = [q for _, q in parts].index(b)
        while b.phases():
            for x in cs:
                for _, q in parts[:i]:
                    x = q.execute(x)
                b.train(x)
            b.stop()
            rec.event('phases_compared')
    flow.train(data)
    # (intermediate nodes may leave their last phase open until they are used)
    flow.execute(rng.rand(2, d))
    for (a, b), g in zip(parts, gens):
        check_phase(rec, a, b, 'after Flow.train')
        for leaf, r in g.leaves:
            rec.require(leaf.state.calls == r.calls, 'leaf-calls', lambda: 'leaf trained with %s, expected %s' % (
                leaf.state.calls, r.calls))
    compare_flow(rng, rec, flow, RefFlow([b for _, b in parts]), d)
    compare(rng, rec, mh.FlowNode(flow), RefFlow([b for _, b in parts]), d, 'd', 1e-9, 'as-node:')
    rec.case(tuple(tuple(g.desc) for g in gens))


def compare_flow(rng, rec, flow, ref, d):
    x = rng.rand(5, d)
    rec.require(close(flow.execute(x), ref.execute(x)), 'flow', 'a flow of trees differs from the composition')
    rec.event('executions_compared')


# -- real nodes --------------------------------------------------------------------
REAL = {
    'PCA': lambda d, **k: mn.PCANode(input_dim=d, output_dim=max(1, d - 1), **k),
    'White': lambda d, **k: mn.WhiteningNode(input_dim=d, output_dim=d, **k),
    'SFA': lambda d, **k: mn.SFANode(input_dim=d, output_dim=max(1, d - 1), **k),
    'SFA2': lambda d, **k: mn.SFA2Node(input_dim=d, output_dim=2, **k),
    'Poly': lambda d, **k: mn.PolynomialExpansionNode(2, input_dim=d, **k),
    'Norm': lambda d, **k: mn.NormalizeNode(input_dim=d, **k),
    'Cut': lambda d, **k: mn.AdaptiveCutoffNode(0.1, 0.1, input_dim=d, **k),
    'Frames': lambda d, **k: mn.TimeFramesNode(2, input_dim=d, **k),
    'Ident': lambda d, **k: mn.IdentityNode(input_dim=d, **k),
    'Eta': lambda d, **k: mn.EtaComputerNode(input_dim=d, **k),
}


@CHECK.each(sorted((k, k) for k in ('layer', 'clone', 'same', 'flow', 'supervised')), quick=25, thorough=350)
def real(rng, rec, kind):
    """Layers of library nodes against the same nodes used by hand."""
    n = 120
    dt = str(rng.choice(['d', 'f']))
    tol = 1e-8 if dt == 'd' else 3e-3
    names = [k for k in sorted(REAL) if dt == 'd' or k not in ('SFA2',)]
    k = int(rng.randint(1, 4))
    if kind == 'supervised':
        widths = [int(rng.randint(2, 4)) for _ in range(k)]
        mk = lambda: [mn.FDANode(input_dim=w, output_dim=2) for w in widths]
    elif kind == 'layer':
        pick = [str(rng.choice([m for m in names if m != 'Frames'])) for _ in range(k)]
        widths = [int(rng.randint(2, 5)) for _ in pick]
        mk = lambda: [REAL[p](w) for p, w in zip(pick, widths)]
    elif kind == 'same':
        pick = [str(rng.choice([m for m in names if m != 'Frames'])) for _ in range(k)]
        widths = [int(rng.randint(2, 5))] * len(pick)
        mk = lambda: [REAL[p](w) for p, w in zip(pick, widths)]
    elif kind == 'clone':
        pick = [str(rng.choice([m for m in names if m not in ('Frames', 'SFA', 'SFA2', 'Eta')]))] * k
        widths = [int(rng.randint(2, 5))] * k
        mk = lambda: [REAL[pick[0]](widths[0])] * k
    else:
        w = 4
        pick, widths = [], [w]
        first = [str(rng.choice(names)) for _ in range(k)]

        def mk():
            out, dd = [], 4
            for p in first:
                out.append(REAL[p](dd))
                dd = {'PCA': dd - 1, 'SFA': dd - 1, 'SFA2': 2, 'Poly': dd * (dd + 3) // 2, 'Frames': 2 * dd}.get(p, dd)
                if dd > 14 or dd < 2:
                    break
            return out
    d = widths[0] if kind in ('same', 'flow') else sum(widths)
    X = C.smooth_mix(rng, n, d).astype(dt)
    cuts = [0, n] if rng.rand() < 0.4 else [0, 50, n]
    cs = [X[a:b].copy() for a, b in zip(cuts[:-1], cuts[1:])]
    nodes, man = mk(), mk()
    lab = [np.arange(len(c)) % 5 for c in cs]
    top = {'layer': lambda: mh.Layer(nodes), 'same': lambda: mh.SameInputLayer(nodes), 'supervised': lambda: mh.Layer(nodes),
           'clone': lambda: mh.CloneLayer(nodes[0], n_nodes=k), 'flow': lambda: mh.FlowNode(mdp.Flow(nodes))}[kind]()
    try:
        while top.is_training():
            for c, l in zip(cs, lab):
                top.train(c.copy(), l) if kind == 'supervised' else top.train(c.copy())
            top.stop_training()
        # by hand
        if kind == 'flow':
            for i, m in enumerate(man):
                while m.is_training():
                    for c in cs:
                        for q in man[:i]:
                            c = q.execute(c)
                        m.train(c)
                    m.stop_training()
        else:
            at = 0
            for j, (m, w) in enumerate(zip(man, widths)):
                sl = slice(None) if kind == 'same' else slice(at, at + w)
                at += w
                if kind == 'clone':
                    if j:
                        break
                    while m.is_training():
                        for c in cs:
                            for i in range(k):
                                m.train(c[:, i * w:(i + 1) * w])
                        m.stop_training()
                    continue
                while m.is_training():
                    for c, l in zip(cs, lab):
                        m.train(c[:, sl], l) if kind == 'supervised' else m.train(c[:, sl])
                    m.stop_training()
    except (mdp.NodeException, mdp.TrainingException):
        raise Skip()            # degenerate data for one of the nodes
    x = X[:30].copy()
    y = top.execute(x)
    if kind == 'flow':
        want = x
        for m in man:
            want = m.execute(want)
    else:
        out, at = [], 0
        for m, w in zip(man, widths):
            sl = slice(None) if kind == 'same' else slice(at, at + w)
            at += w
            out.append(m.execute(x[:, sl]))
        want = np.concatenate(out, axis=1)
    rec.require(y.shape == want.shape, 'real:' + kind + ':shape', lambda: '%s vs %s' % (y.shape, want.shape))
    rec.require(C.close(y, want, tol, sign=kind == 'flow' or dt == 'f'), 'real:' + kind, lambda: 'differs from the nodes used by hand by %g (%s)' % (
        C.maxdiff(y, want), [type(m).__name__ for m in man]))
    rec.require(y.dtype == np.dtype(dt) and top.dtype == np.dtype(dt), 'real:dtype', lambda: '%s %s' % (y.dtype, top.dtype))
    rec.event('executions_compared')
    rec.case(kind, [type(m).__name__ for m in man], widths, dt, cuts)


# -- arguments of execute, containers, refused constructions -----------------------
@CHECK.scenario(quick=60, thorough=600)
def arguments(rng, rec):
    """Additional arguments reach every node; container access shows the parts."""
    k = int(rng.randint(1, 4))
    d = int(rng.randint(1, 4))
    mk = lambda: Leaf(int(rng.randint(1, 900)), 0, None, input_dim=d)
    kind = str(rng.choice(['layer', 'clone', 'same', 'clone']))
    if kind == 'layer':
        parts = [mk() for _ in range(k)]
        top, ref = mh.Layer(parts), RefLayer([p.state for p in parts])
    elif kind == 'same':
        parts = [mk() for _ in range(k)]
        top, ref = mh.SameInputLayer(parts), RefLayer([p.state for p in parts], same=True)
    else:
        p = mk()
        parts = [p] * k
        top, ref = mh.CloneLayer(p, k), RefClone(p.state, k)
    x = rng.rand(int(rng.randint(1, 5)), d if kind == 'same' else d * k)
    want = ref.execute(x) + 7
    for y in (top.execute(x, 7), top.execute(x, add=7), top(x, add=7)):
        rec.require(close(y, want), 'arguments:' + kind, 'additional argument of execute was not forwarded')
    rec.require(len(top) == k and list(top) == parts and all(top[i] is parts[i] for i in range(k)) and parts[0] in top and
                mk() not in top and list(top[0:2]) == parts[0:2], 'container', 'container access differs from the parts')
    f = mh.FlowNode(mdp.Flow(parts[:1] * 1))
    rec.require(len(f) == 1 and f[0] is parts[0] and parts[0] in f and list(f) == parts[:1], 'container', 'FlowNode container')
    rec.event('executions_compared', 3)
    rec.case(kind, k, d)


@CHECK.scenario(quick=60, thorough=600)
def refusals(rng, rec):
    """Impossible layers and flow-nodes are refused when they are built or set."""
    I = mn.IdentityNode

    def refused(f, exc, key, what):
        try:
            f()
        except exc:
            rec.event('refused')
            return
        rec.require(False, key, what + ' was accepted')
    d = int(rng.randint(1, 6))
    refused(lambda: mh.Layer([I(input_dim=d), I()]), mdp.NodeException, 'refuse:late', 'a layer node without input_dim')
    refused(lambda: mh.SameInputLayer([I(input_dim=d), I(input_dim=d + 1)]), mdp.NodeException, 'refuse:same',
            'a same-input layer of different input dimensions')
    refused(lambda: mh.Layer([I(input_dim=d, dtype='d'), I(input_dim=d, dtype='f')]), mdp.NodeException, 'refuse:dtype',
            'a layer of nodes with different types')
    refused(lambda: mh.Layer([I(input_dim=d, dtype='d')], dtype='f'), mdp.NodeException, 'refuse:dtype',
            'a layer whose type contradicts its node')
    L = mh.Layer([I(input_dim=d), I(input_dim=2)])
    refused(lambda: L.execute(rng.rand(3, d + 2 + int(rng.choice([-1, 1, 2])))), mdp.NodeException, 'refuse:width',
            'data of the wrong width')
    F = mh.FlowNode(mdp.Flow([I(input_dim=d), mn.PolynomialExpansionNode(2)]))
    refused(lambda: setattr(F, 'input_dim', d + 1), mdp.NodeException, 'refuse:flowdim', 'another input_dim')
    F.execute(rng.rand(2, d))
    refused(lambda: setattr(F, 'output_dim', d * 50), mdp.NodeException, 'refuse:flowdim', 'another output_dim')
    refused(lambda: mh.FlowNode(mdp.Flow([I(input_dim=d), I(input_dim=d + 1)])).execute(rng.rand(2, d)), (mdp.NodeException, ValueError),
            'refuse:chain', 'a flow of inconsistent dimensions')
    # supported types: the common ones
    L = mh.Layer([I(input_dim=d), mn.PCANode(input_dim=2)])
    a = set(I().get_supported_dtypes()) & set(mn.PCANode().get_supported_dtypes())
    rec.require(set(L.get_supported_dtypes()) == a, 'dtypes', 'supported types are not those common to the nodes')
    F = mh.FlowNode(mdp.Flow([I(input_dim=d), mn.PCANode(input_dim=d)]))
    rec.require(set(F.get_supported_dtypes()) == a, 'dtypes', 'supported types are not those common to the nodes')
    rec.case(d)


@CHECK.each([(k, k) for k in ('layer', 'clone', 'same', 'flow', 'biflow', 'biclone', 'nested')], quick=20, thorough=200)
def shrinking(rng, rec, kind):
    """Nodes that keep fewer components than requested (redundant data) inside containers."""
    import bimdp
    import bimdp.hinet as bh
    d = int(rng.randint(3, 7))
    r = int(rng.randint(1, d))
    out = int(rng.randint(r, d + 1))
    T = 200
    base = np.cumsum(rng.randn(T, r), axis=0) * 0.1 + rng.randn(T, r)
    piece = lambda rk: np.dot(base[:, :rk], rng.randn(rk, d)) + rng.randn(d)
    which = str(rng.choice(['pca', 'sfa']))

    def mk(dim=d):
        if which == 'pca':
            n = mn.PCANode(input_dim=dim, output_dim=out, reduce=True)
            n.var_rel = 1e-8
            return n
        n = mn.SFANode(input_dim=dim, output_dim=out, rank_deficit_method='pca')
        n.rank_threshold = 1e-9
        return n
    if kind in ('flow', 'biflow'):
        parts = [mn.IdentityNode(input_dim=d), mk()]
        x, cols, refs = piece(r), [slice(0, d)], [mk()]
        top = mh.FlowNode(mdp.Flow(parts)) if kind == 'flow' else bh.BiFlowNode(bimdp.BiFlow(parts))
    elif kind in ('clone', 'biclone'):
        k = int(rng.randint(1, 4))
        x1 = piece(r)
        x = np.concatenate([x1] * k, axis=1)
        cols, refs = [slice(i * d, (i + 1) * d) for i in range(k)], [mk()] * k
        top = (mh.CloneLayer if kind == 'clone' else bh.CloneBiLayer)(bimdp.nodes.SFABiNode(input_dim=d, output_dim=out, rank_deficit_method='pca') if kind == 'biclone' and which == 'sfa' else mk(), k)
        if kind == 'biclone' and which == 'sfa':
            top.node.rank_threshold = 1e-9
    elif kind == 'same':
        x, cols, refs = piece(r), [slice(0, d), slice(0, d)], [mk(), mn.PCANode(input_dim=d, output_dim=1)]
        top = mh.SameInputLayer([mk(), mn.PCANode(input_dim=d, output_dim=1)])
    else:
        full = np.dot(rng.randn(T, 3), rng.randn(3, 3))
        x = np.concatenate([piece(r), full], axis=1)
        cols, refs = [slice(0, d), slice(d, d + 3)], [mk(), mn.PCANode(input_dim=3)]
        parts = [mk(), mn.PCANode(input_dim=3, output_dim=3)]
        top = mh.Layer(parts)
        if kind == 'nested':
            top = mh.FlowNode(mdp.Flow([top, mn.IdentityNode()]))
    done = []
    for n, c in zip(refs, cols):
        if n not in done:
            done.append(n)
            for c in [q for m, q in zip(refs, cols) if m is n]:
                n.train(x[:, c])
            n.stop_training()
    want = np.concatenate([n.execute(x[:, c]) for n, c in zip(refs, cols)], axis=1)
    for a, b in ((0, 90), (90, T)):
        top.train(x[a:b] if which == 'pca' else x)
        if which == 'sfa':
            break
    top.stop_training()
    rec.require(top.output_dim == want.shape[1], 'shrink:dim', lambda: '%s has output_dim %s, its nodes give %d columns' % (
        kind, top.output_dim, want.shape[1]))
    y = top.execute(x)
    rec.require(y.shape == want.shape, 'shrink:shape', lambda: '%s instead of %s' % (y.shape, want.shape))
    rec.require(C.close(y, want, 1e-5, sign=True), 'shrink:values', lambda: 'differs from the nodes used by hand by %g' % C.maxdiff(y, want))
    rec.event('executions_compared')
    rec.event('shrunk')
    rec.case(kind, which, d, r, out)
