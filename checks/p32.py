"""P32 graphs against a model of their history; (growing) neural gas against an independent step-by-step replay."""
import itertools
import pickle
import numpy as np
import mdp
from mdp import graph
from harness.core import Check, Skip

CHECK = Check('P32', 'A case is one history: a sequence of additions and removals on a graph with its traversals, or the '
              'samples shown to a neural gas node with its parameters. A model kept beside the graph is compared after '
              'every operation, traversals are validated against the model, and every neural gas step is replayed by an '
              'independent implementation of the documented rule (positions, edges, ages, errors). Distinct by operation '
              'sequence or parameters and data shape.')
CHECK.expect_events(graph_ops=700, traversals=400, sorts=60, cycles=20, components=60, gng_steps=1500, ng_steps=500,
                    inserted=60, edges_dropped=60, nodes_dropped=5, nearest=300, copies=20, self_loops=20)


# ---------------------------------------------------------------- graph model

class Model(object):
    def __init__(self):
        self.g = graph.Graph()
        self.nodes = []         # GraphNode objects in order
        self.edges = []         # (edge, head, tail)
        self.data = {}

    def check(self, rec, what):
        g = self.g
        rec.require(len(g.nodes) == len(self.nodes) and set(map(id, g.nodes)) == set(map(id, self.nodes)), 'nodes',
                    lambda: '%s: graph has %d nodes, the history %d' % (what, len(g.nodes), len(self.nodes)))
        rec.require(len(g.edges) == len(self.edges) and set(map(id, g.edges)) == set(id(e[0]) for e in self.edges), 'edges',
                    lambda: '%s: graph has %d edges, the history %d' % (what, len(g.edges), len(self.edges)))
        for n in self.nodes:
            ins = [e for e, h, t in self.edges if t is n]
            outs = [e for e, h, t in self.edges if h is n]
            rec.require(sorted(map(id, n.get_edges_in())) == sorted(map(id, ins)) and
                        sorted(map(id, n.get_edges_out())) == sorted(map(id, outs)) and
                        sorted(map(id, n.get_edges())) == sorted(map(id, ins + outs)), 'incident',
                        lambda: '%s: a node lists other edges than it has' % what)
            rec.require((n.in_degree(), n.out_degree(), n.degree()) == (len(ins), len(outs), len(ins) + len(outs)),
                        'degree', lambda: '%s: degrees %s' % (what, (n.in_degree(), n.out_degree(), n.degree())))
            hs = [h for e, h, t in self.edges if t is n]
            ts = [t for e, h, t in self.edges if h is n]
            rec.require(sorted(map(id, n.in_neighbors())) == sorted(map(id, hs)) and
                        sorted(map(id, n.out_neighbors())) == sorted(map(id, ts)) and
                        sorted(map(id, n.neighbors())) == sorted(map(id, hs + ts)), 'neighbors',
                        lambda: '%s: wrong neighbours' % what)
            rec.require(n.data is self.data[id(n)], 'node-data', lambda: '%s: node data changed' % what)
        for e, h, t in self.edges:
            rec.require(e.get_head() is h and e.get_tail() is t and tuple(e.get_ends()) == (h, t), 'ends',
                        lambda: '%s: an edge changed its ends' % what)
            rec.require(e.data is self.data[id(e)], 'edge-data', lambda: '%s: edge data changed' % what)

    def add_node(self, node, data):
        self.nodes.append(node)
        self.data[id(node)] = data

    def add_edge(self, edge, h, t, data):
        self.edges.append((edge, h, t))
        self.data[id(edge)] = data

    def succ(self, undirected=False):
        s = dict((id(n), []) for n in self.nodes)
        for e, h, t in self.edges:
            s[id(h)].append(id(t))
            if undirected:
                s[id(t)].append(id(h))
        return s


def reach(succ, root):
    seen = {root}
    todo = [root]
    while todo:
        for s in succ[todo.pop()]:
            if s not in seen:
                seen.add(s)
                todo.append(s)
    return seen


def is_dfs(order, succ):
    """The order is one that a depth first search can produce."""
    stack, seen = [order[0]], {order[0]}
    for v in order[1:]:
        while stack and all(s in seen for s in succ[stack[-1]]):
            stack.pop()
        if not stack or v not in succ[stack[-1]] or v in seen:
            return False
        seen.add(v)
        stack.append(v)
    return True


def is_bfs(order, succ):
    """The order is one that a breadth first search can produce."""
    if len(set(order)) != len(order):
        return False
    queue, seen, k = [order[0]], {order[0]}, 1
    while queue:
        v = queue.pop(0)
        new = set(s for s in succ[v] if s not in seen)
        got = order[k:k + len(new)]
        if set(got) != new:
            return False
        k += len(new)
        seen |= new
        queue.extend(got)
    return k == len(order)


def traversals(rec, rng, m, what):
    g = m.g
    if not m.nodes:
        rec.require(g.topological_sort() == [] and g.connected_components() == [], 'empty', 'traversal of an empty graph')
        return
    root = m.nodes[rng.randint(len(m.nodes))]
    for nm, und, valid in (('dfs', False, is_dfs), ('bfs', False, is_bfs), ('undirected_dfs', True, is_dfs),
                           ('undirected_bfs', True, is_bfs)):
        visits = []
        succ = m.succ(und)
        fn = visits.append if rng.randint(3) else None
        got = getattr(g, nm)(root, fn) if fn else getattr(g, nm)(root)
        ids = list(map(id, got))
        rec.require(len(set(ids)) == len(ids) and set(ids) == reach(succ, id(root)), nm + '-set',
                    lambda: '%s: %s returns %d nodes (%d distinct), reachable are %d' % (
                        what, nm, len(ids), len(set(ids)), len(reach(succ, id(root)))))
        rec.require(ids[0] == id(root) and valid(ids, succ), nm + '-order', lambda: '%s: %s order is not valid' % (what, nm))
        rec.require(fn is None or list(map(id, visits)) == ids, nm + '-visits', lambda: '%s: %s visits differ' % (what, nm))
        rec.event('traversals')
    comps = g.connected_components()
    und = m.succ(True)
    allids = [id(n) for c in comps for n in c]
    rec.require(sorted(allids) == sorted(map(id, m.nodes)), 'components-partition',
                lambda: '%s: components list %d nodes of %d' % (what, len(allids), len(m.nodes)))
    for c in comps:
        rec.require(set(map(id, c)) == reach(und, id(c[0])), 'components', lambda: '%s: not a component' % what)
    rec.event('components')
    rec.require(bool(g.is_weakly_connected()) == (len(comps) == 1), 'weakly', lambda: '%s: weak connectivity' % what)
    # topological order
    succ = m.succ()
    cyc = set(v for v in succ if any(v in reach(succ, s) for s in succ[v]))
    free = set(succ) - (set.union(*[reach(succ, v) for v in cyc]) if cyc else set())
    try:
        order = g.topological_sort()
        rec.require(not cyc, 'topo-cycle', lambda: '%s: a cyclic graph was sorted' % what)
    except graph.GraphTopologicalException as exc:
        rec.require(bool(cyc), 'topo-false', lambda: '%s: cycle reported in an acyclic graph' % what)
        order = exc.args[0]
        rec.event('cycles')
    ids = list(map(id, order))
    rec.require(len(ids) == len(free) and set(ids) == free, 'topo-set',
                lambda: '%s: topological sort lists %d nodes of %d' % (what, len(ids), len(free)))
    pos = dict((v, i) for i, v in enumerate(ids))
    rec.require(all(pos[id(h)] < pos[id(t)] for e, h, t in m.edges if id(t) in pos), 'topo-order',
                lambda: '%s: an edge goes backwards in the topological order' % what)
    rec.event('sorts')


def datum(rng):
    return [object(), object(), None, None, 0, 0., '', [], False, {}, ()][rng.randint(11)]


@CHECK.scenario(quick=60, thorough=6000)
def histories(rng, rec):
    m = Model()
    g = m.g
    log = []
    acyclic = rng.randint(3) == 0
    for step in range(int(rng.randint(10, 45))):
        k = rng.randint(12)
        if k < 2 or not m.nodes:
            d = datum(rng)
            n = g.add_node(d) if rng.randint(2) else g.add_node(data=d)
            m.add_node(n, d)
            op = 'n'
        elif k == 2:
            if rng.randint(2):
                c = int(rng.randint(0, 4))
                ns = g.add_nodes(c)
                ds = [None] * c
            else:
                ds = [datum(rng) for _ in range(rng.randint(0, 4))]
                ns = g.add_nodes(list(ds) if rng.randint(2) else tuple(ds))
            rec.require(len(ns) == len(ds), 'add-nodes', lambda: '%d nodes for %d data' % (len(ns), len(ds)))
            for n, d in zip(ns, ds):
                m.add_node(n, d)
            op = 'N%d' % len(ds)
        elif k < 8:
            i, j = rng.randint(len(m.nodes)), rng.randint(len(m.nodes))
            if acyclic:
                if i == j:
                    continue
                i, j = min(i, j), max(i, j)
            h, t = m.nodes[i], m.nodes[j]
            d = datum(rng)
            e = g.add_edge(h, t, d) if d is not None else g.add_edge(h, t)
            m.add_edge(e, h, t, d)
            if i == j:
                rec.event('self_loops')
            op = 'e%d-%d' % (i, j)
        elif k == 8 and m.edges:
            q = rng.randint(len(m.edges))
            g.remove_edge(m.edges.pop(q)[0])
            op = 're%d' % q
        elif k == 9:
            q = rng.randint(len(m.nodes))
            n = m.nodes.pop(q)
            m.edges = [x for x in m.edges if x[1] is not n and x[2] is not n]
            g.remove_node(n)
            rec.require(n.degree() == 0, 'removed-degree', 'a removed node keeps edges')
            op = 'rn%d' % q
        elif k == 10 and len(m.nodes) > 1:
            a = [m.nodes[i] for i in rng.permutation(len(m.nodes))[:rng.randint(1, 4)]]
            b = [x for x in m.nodes if x not in a][:rng.randint(0, 4)]
            if acyclic:
                continue
            es = g.add_full_connectivity(a, b)
            rec.require(len(es) == len(a) and all(len(r) == len(b) for r in es), 'full', 'full connectivity result shape')
            for r, h in zip(es, a):
                for e, t in zip(r, b):
                    m.add_edge(e, h, t, None)
            op = 'F%dx%d' % (len(a), len(b))
        else:
            other = graph.Graph()
            stranger = other.add_node()
            try:
                g.remove_node(stranger)
                rec.require(False, 'foreign', 'a foreign node was removed')
            except graph.GraphException:
                pass
            op = 'x'
        log.append(op)
        rec.event('graph_ops')
        m.check(rec, ' '.join(log[-6:]))
        if rng.randint(4) == 0:
            traversals(rec, rng, m, ' '.join(log[-6:]))
            m.check(rec, 'after traversal')
    traversals(rec, rng, m, 'end')
    # neighbour queries
    for _ in range(3):
        if len(m.nodes):
            a, b = m.nodes[rng.randint(len(m.nodes))], m.nodes[rng.randint(len(m.nodes))]
            outs = [id(e) for e, h, t in m.edges if h is a and t is b]
            ins = [id(e) for e, h, t in m.edges if h is b and t is a]
            rec.require(sorted(map(id, a.get_edges_out(b))) == sorted(outs) and
                        sorted(map(id, a.get_edges_in(b))) == sorted(ins) and
                        sorted(map(id, a.get_edges(neighbor=b))) == sorted(ins + outs), 'edges-between', 'edges between two nodes')
    rec.case(('history', ' '.join(log)))


@CHECK.scenario(quick=15, thorough=300)
def trees(rng, rec):
    def make(depth):
        t = [int(rng.randint(100))]
        for _ in range(rng.randint(0, 4)):
            t.append(make(depth - 1) if depth and rng.randint(2) else int(rng.randint(100)))
        return tuple(t) if rng.randint(2) else t
    tree = make(3)
    g = graph.Graph()
    for _ in range(rng.randint(0, 3)):
        g.add_node('old')
    n_old = len(g.nodes)
    res = g.add_tree(tree)
    pairs = []

    def walk(t, r):
        rec.require(len(t) == len(r) and r[0].data == t[0], 'tree-shape', 'equivalent nested list')
        for a, b in zip(t[1:], r[1:]):
            if isinstance(a, (list, tuple)):
                pairs.append((id(r[0]), id(b[0])))
                walk(a, b)
            else:
                rec.require(b.data == a, 'tree-data', 'tree node data')
                pairs.append((id(r[0]), id(b)))
    walk(tree, res)
    rec.require(sorted(pairs) == sorted((id(e.head), id(e.tail)) for e in g.edges), 'tree-edges',
                lambda: 'tree %r has %d edges, expected %d' % (tree, len(g.edges), len(pairs)))
    rec.require(len(g.nodes) == n_old + len(pairs) + 1, 'tree-nodes', 'number of nodes')
    order = [n.data for n in g.dfs(res[0])]
    rec.require(len(order) == len(pairs) + 1, 'tree-dfs', 'dfs of a tree')
    rec.case(('tree', repr(tree)))


# ---------------------------------------------------------------- neural gas

class Ambiguous(Exception):
    pass


def margin(a, b, scale):
    if abs(a - b) <= 1e-6 * (abs(a) + abs(b)) + 1e-12 * scale:
        raise Ambiguous


class RefGNG(object):
    """Growing neural gas, written from the documented rule; nodes by key."""

    def __init__(self, start, p):
        self.p = p
        self.pos = dict(enumerate(np.array(s, dtype='d') for s in start))
        self.err = dict((k, 0.0) for k in self.pos)
        self.age = {}
        self.next = len(self.pos)
        self.t = 0

    def nb(self, k):
        return [next(iter(e - {k})) for e in self.age if k in e]

    def nearest(self, x):
        d = sorted((float(((self.pos[k] - x) ** 2).sum()), k) for k in self.pos)
        if len(d) > 1:
            margin(d[0][0], d[1][0], 1)
        if len(d) > 2:
            margin(d[1][0], d[2][0], 1)
        return d

    def step(self, x, rec):
        p = self.p
        self.t += 1
        x = np.asarray(x, 'd')
        d = self.nearest(x)
        (d0, a), (d1, b) = d[0], d[1]
        neigh = self.nb(a)
        for e in self.age:
            if a in e:
                self.age[e] += 1
        self.err[a] += np.sqrt(d0)
        self.pos[a] = self.pos[a] + p['eps_b'] * (x - self.pos[a])
        for n in neigh:
            self.pos[n] = self.pos[n] + p['eps_n'] * (x - self.pos[n])
        self.age[frozenset((a, b))] = 0
        for e in [e for e in self.age if self.age[e] > p['max_age']]:
            del self.age[e]
            rec.event('edges_dropped')
            for n in e:
                if not self.nb(n):
                    del self.pos[n], self.err[n]
                    rec.event('nodes_dropped')
        if self.t % p['lambda_'] == 0 and len(self.pos) < p['max_nodes']:
            q = self.largest(self.pos)
            f = self.largest(self.nb(q))
            new = self.next
            self.next += 1
            self.pos[new] = (self.pos[q] + self.pos[f]) / 2
            del self.age[frozenset((q, f))]
            self.age[frozenset((q, new))] = 0
            self.age[frozenset((f, new))] = 0
            self.err[q] *= p['alpha']
            self.err[f] *= p['alpha']
            self.err[new] = (self.err[q] + self.err[f]) / 2
            rec.event('inserted')
        for n in self.err:
            self.err[n] *= p['d']

    def largest(self, keys):
        o = sorted(((self.err[k], k) for k in keys), reverse=True)
        if len(o) > 1:
            margin(o[0][0], o[1][0], 1)
        return o[0][1]


def consistent(rec, g, what):
    """Structure of a neural gas graph."""
    ids = set(map(id, g.nodes))
    rec.require(len(ids) == len(g.nodes), 'ng-twice', lambda: '%s: a node is listed twice' % what)
    pairs = set()
    for e in g.edges:
        rec.require(id(e.head) in ids and id(e.tail) in ids, 'ng-dangling', lambda: '%s: an edge leads out of the graph' % what)
        rec.require(e.head is not e.tail, 'ng-loop', lambda: '%s: a node is connected to itself' % what)
        pr = frozenset((id(e.head), id(e.tail)))
        rec.require(pr not in pairs, 'ng-double', lambda: '%s: two edges between the same nodes' % what)
        pairs.add(pr)
        rec.require(sum(x is e for x in e.head.eout) == 1 and sum(x is e for x in e.tail.ein) == 1, 'ng-link',
                    lambda: '%s: an edge is not listed by its ends' % what)
    rec.require(sum(n.degree() for n in g.nodes) == 2 * len(g.edges), 'ng-degree', lambda: '%s: degrees do not add up' % what)


def match(node, ref, tol):
    """Positions, edges and ages of node and reference agree; returns text or None."""
    g = node.graph
    if len(g.nodes) != len(ref.pos):
        return '%d nodes, expected %d' % (len(g.nodes), len(ref.pos))
    keys = list(ref.pos)
    P = np.array([ref.pos[k] for k in keys])
    left = set(range(len(keys)))
    of = {}
    for n in g.nodes:
        d = np.abs(P - n.data.pos).max(axis=1)
        c = [i for i in left if d[i] <= tol * (1 + np.abs(P[i]).max())]
        if not c:
            return 'a node at %s, expected nodes at %s' % (n.data.pos, P[sorted(left)].tolist())
        if hasattr(ref, 'err') and len(c) > 1:
            c.sort(key=lambda i: abs(ref.err[keys[i]] - n.data.cum_error))
        else:
            c.sort(key=lambda i: d[i])
        left.discard(c[0])
        of[id(n)] = keys[c[0]]
        if hasattr(ref, 'err') and abs(ref.err[keys[c[0]]] - n.data.cum_error) > 10 * tol * (1 + abs(ref.err[keys[c[0]]])):
            return 'error %r, expected %r' % (n.data.cum_error, ref.err[keys[c[0]]])
    have = dict((frozenset((of[id(e.head)], of[id(e.tail)])), e.data.age) for e in g.edges)
    if have != ref.age:
        return 'edges with ages %s, expected %s' % (sorted((sorted(k), v) for k, v in have.items()),
                                                    sorted((sorted(k), v) for k, v in ref.age.items()))
    return None


def cloud(rng, n, d):
    k = rng.randint(3)
    if k == 0:
        return rng.randn(n, d)
    if k == 1:
        c = rng.randn(int(rng.randint(2, 5)), d) * 4
        return c[rng.randint(len(c), size=n)] + 0.3 * rng.randn(n, d)
    t = rng.rand(n, 1) * 6
    return np.hstack([np.cos(t), np.sin(t)] * d)[:, :d] * 2 + 0.1 * rng.randn(n, d)


def chunks(rng, x, single):
    if single:
        return [x[i:i + 1] for i in range(len(x))]
    cuts = np.sort(rng.randint(0, len(x), rng.randint(0, 6)))
    return [c for c in np.split(x, cuts) if len(c)]


@CHECK.scenario(quick=45, thorough=5000)
def growing(rng, rec):
    d = int(rng.randint(1, 5))
    dt = str(rng.choice(['d', 'd', 'f']))
    p = dict(eps_b=float(rng.choice([0.05, 0.2, 0.5])), eps_n=float(rng.choice([0.0, 0.006, 0.1])),
             max_age=int(rng.choice([1, 2, 3, 5, 10, 50])), lambda_=int(rng.choice([1, 3, 7, 20, 100])),
             alpha=float(rng.choice([0.3, 0.5, 0.9])), d=float(rng.choice([0.9, 0.995, 1.0])),
             max_nodes=int(rng.choice([2, 3, 6, 15, 2147483647])))
    start = rng.randn(2, d).astype(dt) * rng.choice([0.1, 1, 3])
    start = [start[0].copy(), start[1].copy()]
    node = mdp.nodes.GrowingNeuralGasNode(start_poss=start, dtype=rng.choice([None, dt]), **p)
    keep = [s.copy() for s in start]
    ref = RefGNG(start, p)
    ref.age[frozenset((0, 1))] = 0
    n = int(rng.randint(30, 130))
    x = cloud(rng, n, d).astype(dt)
    single = bool(rng.randint(2))
    tol = 1e-9 if dt == 'd' else 2e-3
    done = 0
    what = 'GNG %s' % sorted(p.items())
    try:
        for c in chunks(rng, x, single):
            before = c.copy()
            node.train(c)
            rec.require(np.array_equal(before, c), 'gng-x', lambda: '%s: training changed the data' % what)
            for v in c:
                ref.step(v, rec)
            done += len(c)
            rec.event('gng_steps', len(c))
            consistent(rec, node.graph, what)
            bad = match(node, ref, tol)
            if bad and dt == 'f':
                raise Ambiguous if done > 25 else Skip('single precision drift')
            rec.require(bad is None, 'gng-step', lambda: '%s: after %d samples: %s' % (what, done, bad))
            rec.require(len(node.graph.nodes) <= max(2, p['max_nodes']), 'gng-size', lambda: '%s: too many nodes' % what)
            rec.require(all(m.degree() for m in node.graph.nodes), 'gng-isolated', lambda: '%s: an isolated node stays' % what)
            rec.require(all(0 <= e.data.age <= p['max_age'] for e in node.graph.edges), 'gng-age', lambda: '%s: an expired edge stays' % what)
            if rng.randint(15) == 0:
                node = duplicate(rng, rec, node)
    except Ambiguous:
        if done < 15:
            raise Skip('tie')
    rec.require(all(np.array_equal(a, b) for a, b in zip(start, keep)), 'gng-start', 'the start positions were changed')
    finish(rng, rec, node, d, dt, what)
    rec.case(('gng', d, dt, tuple(sorted(p.items())), n, single))


def duplicate(rng, rec, node):
    """Continue with a copy; the original is trained on something else."""
    k = rng.randint(3)
    c = node.copy() if k == 0 else (pickle.loads(pickle.dumps(node)) if k == 1 else pickle.loads(node.save(None)))
    node.train(np.ones((3, node.input_dim), node.dtype) * 7)
    rec.event('copies')
    return c


def finish(rng, rec, node, d, dt, what):
    pos = np.array([m.data.pos for m in node.graph.nodes])
    got = node.get_nodes_position()
    rec.require(got.shape == pos.shape and np.array_equal(got, pos) and got.dtype == np.dtype(dt), 'positions',
                lambda: '%s: node positions are not those of the graph' % what)
    q = (rng.randn(int(rng.randint(1, 12)), d) * 2).astype(dt)
    if rng.randint(2):
        node.stop_training()
    if len(pos) < 2:
        return
    d = q.shape[1]
    if rng.rand() < .5:
        for bad in (np.zeros((3, d + 1)), np.zeros(d), np.zeros((3, d - 1)) if d > 1 else np.zeros((2, 2, 2))):
            try:
                got = node.nearest_neighbor(bad)
                rec.require(False, 'nn-refusal', lambda: '%s: nearest neighbours of data of shape %s: %s' % (what, bad.shape, got[1]))
            except mdp.NodeException:
                rec.event('nn_refused')
    ns, ds = node.nearest_neighbor(q)
    rec.require(not node.is_training(), 'nn-training', 'nearest neighbour queries close the training')
    rec.require(len(ns) == len(q) and len(ds) == len(q), 'nn-len', 'one answer per query')
    D = np.sqrt(((q[:, None, :].astype('d') - pos[None].astype('d')) ** 2).sum(axis=2))
    gid = dict((id(m), i) for i, m in enumerate(node.graph.nodes))
    for i in range(len(q)):
        tol = (1e-9 if dt == 'd' else 1e-4) * (1 + D[i].max())
        rec.require(id(ns[i]) in gid and D[i, gid[id(ns[i])]] <= D[i].min() + tol, 'nn-node',
                    lambda: '%s: the node returned is %.6g away, the nearest %.6g' % (what, D[i, gid.get(id(ns[i]), 0)], D[i].min()))
        rec.require(abs(float(ds[i]) - D[i].min()) <= tol, 'nn-dist', lambda: '%s: distance %r, true %r' % (what, ds[i], D[i].min()))
        rec.event('nearest')
    rec.require(np.array_equal(node.execute(q), q), 'execute', 'execution returns the data')
    after = np.array([m.data.pos for m in node.graph.nodes])
    rec.require(np.array_equal(after, pos), 'nn-state', 'queries move nodes')


class RefNG(object):
    def __init__(self, start, p):
        self.p = p
        self.pos = dict(enumerate(np.array(s, 'd') for s in start))
        self.age = {}
        self.epoch = 0

    def clone(self):
        c = RefNG([], self.p)
        c.pos = dict((k, v.copy()) for k, v in self.pos.items())
        c.age = dict(self.age)
        c.epoch = self.epoch
        return c

    def run_epoch(self, xs, rec=None):
        p = self.p
        t = min(self.epoch / float(p['max_epochs']), 1.0) if p['max_epochs'] else 1.0
        e = p['epsilon_i'] * (p['epsilon_f'] / p['epsilon_i']) ** t
        l = p['lambda_i'] * (p['lambda_f'] / p['lambda_i']) ** t
        T = p['max_age_i'] * (p['max_age_f'] / float(p['max_age_i'])) ** t
        self.epoch += 1
        for x in xs:
            x = np.asarray(x, 'd')
            o = sorted((float(((self.pos[k] - x) ** 2).sum()), k) for k in self.pos)
            for a, b in zip(o, o[1:]):
                margin(a[0], b[0], 1)
            for r, (_, k) in enumerate(o):
                self.pos[k] = self.pos[k] + e * np.exp(-r / l) * (x - self.pos[k])
            for ed in self.age:
                self.age[ed] += 1
            self.age[frozenset((o[0][1], o[1][1]))] = 0
            for ed in [ed for ed in self.age if self.age[ed] > T]:
                if abs(self.age[ed] - T) < 1e-9:
                    raise Ambiguous
                del self.age[ed]
                if rec:
                    rec.event('edges_dropped')
        return T


@CHECK.scenario(quick=45, thorough=5000)
def gas(rng, rec):
    d = int(rng.randint(1, 4))
    k = int(rng.randint(2, 8))
    dt = str(rng.choice(['d', 'd', 'd', 'f']))
    p = dict(epsilon_i=float(rng.choice([0.3, 0.6, 0.05])), epsilon_f=float(rng.choice([0.05, 0.01, 0.3])),
             lambda_i=float(rng.choice([30., 3., 1.])), lambda_f=float(rng.choice([0.01, 0.5])),
             max_age_i=int(rng.choice([1, 2, 5, 20])), max_age_f=int(rng.choice([1, 3, 10, 200])),
             max_epochs=int(rng.choice([1, 3, 10, 40])))
    start = [v for v in rng.randn(k, d).astype(dt)]
    keep = [v.copy() for v in start]
    per = int(rng.choice([1, 1, 1, 2]))
    node = mdp.nodes.NeuralGasNode(num_nodes=int(rng.randint(1, 12)), start_poss=start, n_epochs_to_train=per, **p)
    rec.require(len(node.graph.nodes) == k, 'ng-num', 'one node per start position')
    ref = RefNG(start, p)
    tol = 1e-9 if dt == 'd' else 2e-3
    steps = int(rng.randint(12, 45))
    what = 'NG %s' % sorted(p.items())
    done = 0
    try:
        for s in range(steps):
            m = 1 if rng.randint(4) else int(rng.randint(2, 4 if per == 1 else 3))
            x = cloud(rng, m, d).astype(dt)
            before = x.copy()
            node.train(x)
            rec.require(np.array_equal(before, x), 'ng-x', lambda: '%s: training changed the data' % what)
            cands = [ref]
            perms = list(itertools.permutations(range(m)))
            for _ in range(per):
                nxt = []
                for c in cands:
                    for pm in perms:
                        c2 = c.clone()
                        T = c2.run_epoch(x[list(pm)], rec if m == 1 else None)
                        nxt.append(c2)
                cands = nxt
            bads = [match(node, c, tol) for c in cands]
            ok = [c for c, b in zip(cands, bads) if b is None]
            consistent(rec, node.graph, what)
            if not ok and dt == 'f':
                raise Ambiguous if done > 10 else Skip('single precision drift')
            rec.require(bool(ok), 'ng-step', lambda: '%s: call %d with %d samples: %s' % (what, s, m, bads[0]))
            rec.require(all(e.data.age <= T for e in node.graph.edges), 'ng-age', lambda: '%s: an expired edge stays' % what)
            rec.require(len(node.graph.nodes) == k, 'ng-nodes', lambda: '%s: the number of nodes changed' % what)
            ref = ok[0]
            done += m
            rec.event('ng_steps', m * per)
            if rng.randint(15) == 0:
                node = duplicate(rng, rec, node)
    except Ambiguous:
        if done < 8:
            raise Skip('tie')
    rec.require(all(np.array_equal(a, b) for a, b in zip(start, keep)), 'ng-start', 'the start positions were changed')
    finish(rng, rec, node, d, dt, what)
    rec.case(('ng', d, k, dt, per, tuple(sorted(p.items())), steps))


@CHECK.scenario(quick=20, thorough=300)
def batches(rng, rec):
    """Default starts, whole training at once: structure, bounds and epochs."""
    d = int(rng.randint(1, 4))
    dt = str(rng.choice(['d', 'f']))
    x = cloud(rng, int(rng.randint(20, 60)), d).astype(dt)
    if rng.randint(2):
        k = int(rng.randint(2, 9))
        ep = int(rng.randint(1, 5))
        node = mdp.nodes.NeuralGasNode(num_nodes=k, max_epochs=ep, max_age_i=int(rng.randint(1, 20)), max_age_f=int(rng.randint(1, 30)))
        node.train(x)
        rec.require(len(node.graph.nodes) == k, 'batch-nodes', lambda: '%d nodes, asked for %d' % (len(node.graph.nodes), k))
        T = node.max_age_i * (node.max_age_f / float(node.max_age_i)) ** ((ep - 1.0) / ep)
        rec.require(all(e.data.age <= T + 1e-9 for e in node.graph.edges), 'batch-age',
                    lambda: 'edges of age %s stay beyond %g' % (max(e.data.age for e in node.graph.edges), T))
        rec.event('ng_steps', ep * len(x))
        what = 'NG batch'
    else:
        mx = int(rng.randint(2, 12))
        node = mdp.nodes.GrowingNeuralGasNode(lambda_=int(rng.randint(1, 8)), max_nodes=mx, max_age=int(rng.randint(2, 20)))
        node.train(x)
        rec.require(2 <= len(node.graph.nodes) <= mx, 'batch-size', lambda: '%d nodes of at most %d' % (len(node.graph.nodes), mx))
        rec.require(all(n.degree() for n in node.graph.nodes), 'batch-isolated', 'isolated node')
        rec.event('gng_steps', len(x))
        what = 'GNG batch'
    consistent(rec, node.graph, what)
    pos = node.get_nodes_position()
    rec.require(pos.shape == (len(node.graph.nodes), d) and np.isfinite(pos).all(), 'batch-pos', 'positions')
    lo, hi = x.min(axis=0), x.max(axis=0)
    finish(rng, rec, node, d, dt, what)
    rec.case((what, d, dt, len(x), len(node.graph.nodes)))


@CHECK.scenario(quick=4, thorough=20)
def large(rng, rec):
    """Large graphs are copied and saved like small ones."""
    n = int(rng.choice([400, 700, 1500, 4000]))
    k = rng.randint(3)
    if k == 0:
        node = mdp.nodes.NeuralGasNode(start_poss=[v for v in rng.randn(n, 2)])
        g = node.graph
        for a, b in zip(g.nodes, g.nodes[1:]):
            node._add_edge(a, b) if hasattr(node, '_add_edge') else g.add_edge(a, b)
        c = node.copy() if rng.randint(2) else pickle.loads(node.save(None))
        h = c.graph
        same = np.array_equal(node.get_nodes_position(), c.get_nodes_position())
    else:
        g = graph.Graph()
        ns = g.add_nodes(list(range(n)))
        for a, b in zip(ns, ns[1:]):
            g.add_edge(a, b, data=('e', a.data))
        for _ in range(n // 4):
            g.add_edge(ns[rng.randint(n)], ns[rng.randint(n)])
        import copy
        h = copy.deepcopy(g) if k == 1 else pickle.loads(pickle.dumps(g))
        same = [v.data for v in g.nodes] == [v.data for v in h.nodes]
    rec.require(same, 'copy-nodes', 'the nodes of a copied graph differ')
    i0 = dict((id(v), i) for i, v in enumerate(g.nodes))
    i1 = dict((id(v), i) for i, v in enumerate(h.nodes))
    rec.require(not set(i0) & set(i1), 'copy-shared', 'a copied graph shares nodes')
    rec.require([(i0[id(e.head)], i0[id(e.tail)]) for e in g.edges] == [(i1[id(e.head)], i1[id(e.tail)]) for e in h.edges],
                'copy-edges', 'the edges of a copied graph differ')
    for v, w in zip(g.nodes, h.nodes):
        rec.require([i0[id(u)] for u in v.in_neighbors()] == [i1[id(u)] for u in w.in_neighbors()] and
                    [i0[id(u)] for u in v.out_neighbors()] == [i1[id(u)] for u in w.out_neighbors()], 'copy-links', 'links of a copied graph')
    rec.event('copies')
    rec.case(('large', n, int(k), len(g.edges)))
