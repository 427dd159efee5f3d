"""P08 flow editing is list-like, consistent and all-or-nothing."""
import numpy as np
import mdp
import bimdp
import mdp.nodes as mn
from harness.core import Check, Skip

CHECK = Check('P08', 'A case applies a random sequence of container operations (index, slice with any step, '
              'membership, iteration, sums, in-place sums, insert, append, extend, pop, deletion, item and '
              'slice assignment, with good nodes, nodes of wrong dimension, non-nodes, bad indices) to a flow '
              'and the same to a plain list; a monitor compares the node identities after every operation. '
              'Distinct by flow class, dimensions, operations and seed.')
CHECK.expect_events(edits_applied=3000, edits_refused=500, slices_compared=300)


class Fix(mdp.Node):
    """A node with given dimensions, never trainable."""
    def is_trainable(self):
        return False

    def is_invertible(self):
        return False

    def _execute(self, x):
        return self._refcast(np.ones((len(x), self.output_dim)) * x.sum(1)[:, None])


class OnFix(mdp.OnlineNode):
    def _train(self, x):
        pass

    def _execute(self, x):
        return self._refcast(np.ones((len(x), self.output_dim)) * x.sum(1)[:, None])


class Bi(bimdp.BiNode, Fix):
    pass


CLASSES = [('Flow', mdp.Flow, Fix), ('CheckpointFlow', mdp.CheckpointFlow, Fix),
           ('ParallelFlow', mdp.parallel.ParallelFlow, Fix), ('BiFlow', bimdp.BiFlow, Fix),
           ('BiFlow_binodes', bimdp.BiFlow, Bi), ('CheckpointBiFlow', bimdp.BiCheckpointFlow, Fix)
           if hasattr(bimdp, 'BiCheckpointFlow') else ('BiFlow2', bimdp.BiFlow, Fix),
           ('ParallelCheckpointFlow', mdp.parallel.ParallelCheckpointFlow, Fix),
           ('ParallelBiFlow', bimdp.parallel.ParallelBiFlow, Fix),
           ('OnlineFlow', mdp.OnlineFlow, OnFix), ('OnlineFlow_mixed', mdp.OnlineFlow, Fix),
           ('CircularOnlineFlow', mdp.CircularOnlineFlow, OnFix),
           ('UserFlow', type('UserFlow', (mdp.Flow,), {}), Fix)]


def consistent(nodes):
    for a, b in zip(nodes[:-1], nodes[1:]):
        if a.output_dim is not None and b.input_dim is not None and a.output_dim != b.input_dim:
            return False
    return True


def bad_slice(rng, n):
    def p():
        return None if rng.rand() < 0.3 else int(rng.randint(-n - 2, n + 3))
    step = [None, None, None, 1, 2, -1, -2][rng.randint(7)]
    return slice(p(), p(), step)


NONNODES = [None, 3, 'node', np.zeros((2, 2)), Fix, object()]


class Refusal(Exception):
    pass


@CHECK.each([(c[0], c) for c in CLASSES], quick=150, thorough=2500)
def edits(rng, rec, item):
    label, cls, ncls = item
    online = issubclass(cls, mdp.OnlineFlow)
    circular = issubclass(cls, mdp.CircularOnlineFlow)
    dims = [2, 2, 2, 3] if rng.rand() < 0.7 else [2, 3, 4]

    def node(inp=0, out=0):
        i = inp or dims[rng.randint(len(dims))]
        o = out or dims[rng.randint(len(dims))]
        r = rng.rand()
        if r < 0.15 and ncls is not Bi:
            return ncls(input_dim=i, output_dim=o)
        if r < 0.3:
            n = ncls()
            return n
        if r < 0.4:
            return ncls(input_dim=i)
        return ncls(input_dim=i, output_dim=o)
    for _ in range(100):
        nodes = [node() for _ in range(rng.randint(1, 6))]
        if consistent(nodes):
            break
    given = list(nodes)
    flow = cls(given)
    model = list(nodes)
    ops = []
    where = ''

    def state():
        return [id(n) for n in flow]

    def agree(key):
        rec.require(state() == [id(n) for n in model], key, lambda: '%s: after %s the flow holds %s, a list would hold %s' % (
            label, ops[-6:], [str(n) for n in flow], [str(n) for n in model]))
        rec.require(len(flow) == len(model), key, '%s len after %s' % (label, ops[-6:]))
        rec.require(consistent(list(flow)), 'inconsistent', '%s: neighbours disagree after %s' % (label, ops[-6:]))

    def attempt(opname, list_op, flow_op, value_ok=True, values_nodes=True):
        """list_op(list) -> new list or raises; expected outcome decided from it."""
        ops.append(opname)
        before = state()
        flowlist_before = list(flow.flow)
        exp = None
        try:
            new = list(model)
            new = list_op(new)
        except (IndexError, ValueError, TypeError) as e:
            exp = (type(e),)
            new = None
        if not values_nodes:
            exp = (TypeError,) if exp is None else exp + (TypeError,)
        if exp is None and not consistent(new):
            exp = (ValueError,)
        if exp is None and online and not circular and not new:
            exp = (IndexError, ValueError, TypeError)
        try:
            flow_op()
            got = None
        except Exception as e:
            got = e
        if exp is not None:
            rec.require(got is not None, 'bad-edit-accepted', '%s: %s accepted' % (label, opname))
            rec.require(isinstance(got, exp), 'wrong-error', '%s: %s raised %s: %s, expected %s'
                        % (label, opname, type(got).__name__, got, exp))
            rec.require(state() == before and list(flow.flow) == flowlist_before, 'refused-edit-changed-flow',
                        lambda: '%s: refused %s changed the flow from %d to %d nodes' % (label, opname, len(before), len(state())))
            rec.event('edits_refused')
        else:
            if got is not None:
                rec.require(False, 'good-edit-refused', '%s: %s raised %s: %s' % (label, opname, type(got).__name__, got))
            model[:] = new
            rec.event('edits_applied')
        agree('not-list-like')

    def fresh(n=None):
        """values for an edit: mostly nodes, sometimes not"""
        if rng.rand() < 0.12:
            return NONNODES[rng.randint(len(NONNODES))]
        return node()

    def isnodes(vals):
        return all(isinstance(v, mdp.Node) for v in vals)

    def fit(i):
        """a node likely to fit at position i"""
        a = model[i - 1].output_dim if 0 < i <= len(model) else 0
        b = model[i].input_dim if 0 <= i < len(model) else 0
        return node(a or 0, b or 0)

    for step in range(rng.randint(4, 14)):
        n = len(model)
        k = rng.randint(16)
        if k == 0:
            v = fit(n) if rng.rand() < 0.6 else fresh()
            attempt('append', lambda l: l + [v], lambda: flow.append(v), values_nodes=isnodes([v]))
        elif k == 1:
            i = int(rng.randint(-n - 2, n + 3))
            v = fit(i) if rng.rand() < 0.6 else fresh()

            def lins(l):
                l.insert(i, v)
                return l
            attempt('insert(%d)' % i, lins, lambda: flow.insert(i, v), values_nodes=isnodes([v]))
        elif k == 2:
            vals = [fit(n)] if rng.rand() < 0.7 else []
            vals += [node() for _ in range(rng.randint(2))]
            if consistent(vals) and vals:
                other = (mdp.Flow if rng.rand() < 0.5 or online else cls)(vals)
                attempt('extend', lambda l: l + vals, lambda: flow.extend(other))
                rec.require(list(other) == vals, 'operand-changed', '%s extend' % label)
            else:
                bad = [[fit(n)], None, fit(n)][rng.randint(3)]
                ops.append('extend(non-flow)')
                b = state()
                try:
                    flow.extend(bad)
                    rec.require(False, 'bad-edit-accepted', '%s extend with %s' % (label, type(bad)))
                except TypeError:
                    rec.event('edits_refused')
                rec.require(state() == b, 'refused-edit-changed-flow', '%s extend' % label)
        elif k == 3 and n:
            i = int(rng.randint(-n - 1, n + 1))
            got = []

            def lpop(l):
                got.append(l.pop(i))
                return l

            def fpop():
                got.append(flow.pop(i))
            attempt('pop(%d)' % i, lpop, fpop)
            rec.require(len(got) < 2 or got[0] is got[1], 'pop', '%s pop(%d) returned another node' % (label, i))
        elif k == 4 and n:
            ref = []

            def lpop2(l):
                ref.append(l.pop())
                return l

            def fpop2():
                r = flow.pop()
                rec.require(r is ref[0], 'pop', '%s pop() returned another node' % label)
            attempt('pop()', lpop2, fpop2)
        elif k == 5 and n:
            i = int(rng.randint(-n - 1, n + 1))

            def ldel(l):
                del l[i]
                return l

            def fdel():
                del flow[i]
            attempt('del[%d]' % i, ldel, fdel)
        elif k == 6 and n:
            s = bad_slice(rng, n)

            def ldel(l):
                del l[s]
                return l

            def fdel():
                del flow[s]
            attempt('del[%s]' % s, ldel, fdel)
        elif k == 7 and n:
            i = int(rng.randint(-n - 1, n + 1))
            v = fit(i % n) if rng.rand() < 0.3 else fresh()
            j = i % n
            if rng.rand() < 0.6:
                v = node(model[j - 1].output_dim or 0 if j else 0, model[j + 1].input_dim or 0 if j + 1 < n else 0)

            def lset(l):
                l[i] = v
                return l

            def fset():
                flow[i] = v
            attempt('[%d]=' % i, lset, fset, values_nodes=isnodes([v]))
        elif k == 8:
            s = bad_slice(rng, n)
            cnt = rng.randint(0, 3) if s.step in (None, 1) else len(range(*s.indices(n))) + int(rng.rand() < 0.2)
            vals = [fresh() if rng.rand() < 0.5 else node(2, 2) for _ in range(cnt)]
            form = rng.randint(3)

            def lset(l):
                l[s] = vals
                return l

            def fset():
                flow[s] = [vals, tuple(vals), (v for v in vals)][form]
            attempt('[%s]= %d nodes (%s)' % (s, cnt, ['list', 'tuple', 'iterator'][form]), lset, fset,
                    values_nodes=isnodes(vals))
        elif k == 9:
            # in-place sum with a node, a flow or junk
            r = rng.rand()
            v = fit(n) if r < 0.5 else fresh()
            if r > 0.7:
                vals = [fit(n)] + ([node()] if rng.rand() < 0.5 else [])
                if not consistent(vals):
                    continue
                v = cls(vals)
            else:
                vals = [v]
            f0 = flow

            def iadd():
                f = flow
                f += v
                rec.require(f is f0, 'iadd-identity', '%s += gave a new object' % label)
            attempt('+= %s' % type(v).__name__, lambda l: l + vals, iadd, values_nodes=isnodes(vals))
            if isinstance(v, mdp.Flow):
                rec.require(list(v) == vals, 'operand-changed', '%s +=' % label)
        elif k in (10, 11):
            r = rng.rand()
            v = fit(n) if r < 0.4 else fresh()
            if r > 0.6:
                vals = [fit(n)] + ([node()] if rng.rand() < 0.5 else [])
                if not consistent(vals):
                    continue
                v = cls(vals)
            else:
                vals = [v]
            b = state()
            exp = None
            if not isnodes(vals):
                exp = TypeError
            elif not consistent(model + vals):
                exp = ValueError
            if circular and isinstance(v, mdp.Node) and not isinstance(v, mdp.OnlineNode):
                continue
            ops.append('+ %s' % type(v).__name__)
            try:
                f = flow + v
                got = None
            except Exception as e:
                got = e
            rec.require(state() == b, 'operand-changed', '%s: + changed the left operand' % label)
            if exp:
                rec.require(isinstance(got, exp), 'bad-edit-accepted', '%s: flow + %s gave %r' % (label, type(v), got))
                rec.event('edits_refused')
            else:
                rec.require(got is None, 'good-edit-refused', '%s: + raised %r' % (label, got))
                rec.require(type(f) is cls and [id(i) for i in f] == [id(i) for i in model + vals], 'not-list-like',
                            '%s: sum is %s with %d nodes, expected %d' % (label, type(f), len(f), n + len(vals)))
                # the sum is independent of its operands
                if len(f):
                    f.append(node(f[-1].output_dim or 0, 2))
                rec.require(state() == b, 'aliased', '%s: editing the sum changed the operand' % label)
                rec.event('edits_applied')
        elif k == 12:
            for s in [bad_slice(rng, n) for _ in range(3)]:
                exp = model[s]
                if online and not exp:
                    continue
                try:
                    f = flow[s]
                except ValueError:
                    rec.require(not consistent(exp), 'good-edit-refused', '%s[%s]' % (label, s))
                    rec.event('edits_refused')
                    continue
                rec.event('slices_compared')
                rec.require(consistent(exp), 'inconsistent', '%s[%s]' % (label, s))
                rec.require(type(f) is cls and [id(i) for i in f] == [id(i) for i in exp], 'not-list-like',
                            '%s[%s] on %d nodes' % (label, s, n))
                if len(f):
                    b = state()
                    try:
                        f.pop()
                    except (IndexError, ValueError):
                        pass
                    f2 = None
                    rec.require(state() == b, 'aliased', '%s: editing a slice changed the flow' % label)
        elif k == 13:
            for i in range(-n - 1, n + 1):
                try:
                    exp = model[i]
                except IndexError:
                    exp = None
                try:
                    got = flow[i]
                except IndexError:
                    got = None
                rec.require(exp is got, 'not-list-like', '%s[%d] of %d' % (label, i, n))
        elif k == 14:
            out = node()
            rec.require(all(m in flow for m in model) and out not in flow, 'not-list-like', '%s membership' % label)
            rec.require([id(i) for i in flow] == [id(i) for i in model], 'not-list-like', '%s iteration' % label)
            it = [id(i) for i in reversed(flow)] if hasattr(flow, '__getitem__') else None
            rec.require(it == [id(i) for i in reversed(model)], 'not-list-like', '%s reversed' % label)
        elif k == 15 and n:
            # self operations
            if consistent(model + model) and n < 12:
                f0 = list(model)
                if rng.rand() < 0.5:
                    attempt('+= itself', lambda l: l + f0, lambda: flow.__iadd__(flow))
                else:
                    attempt('extend(itself)', lambda l: l + f0, lambda: flow.extend(flow))
                attempt('del second half', lambda l: l[:n], lambda: flow.__delitem__(slice(n, None)))
    # the list the flow was built from still belongs to the caller
    rec.require([id(i) for i in given] == [id(i) for i in nodes], 'aliased', '%s: edits %s changed the list the flow was '
                'built from' % (label, ops))
    # the edited flow works: execution goes through exactly its nodes
    if len(flow) and consistent(model) and not online:
        exp = mdp.Flow(list(model))
        d = next((m.input_dim for m in model if m.input_dim), None) if model[0].input_dim is None else model[0].input_dim
        rec.require(repr(flow).startswith(type(flow).__name__), 'repr', label)
    rec.case(label, dims, ops, rng.randint(1 << 30))


@CHECK.scenario(quick=300, thorough=4000)
def edited_flow_executes(rng, rec):
    """After edits, training and execution use the new sequence (argument
    bookkeeping of online flows, checkpoints, output node of circular flows)."""
    class Add(mdp.OnlineNode):
        def __init__(self, c, d=2):
            super(Add, self).__init__(input_dim=d, output_dim=d)
            self.c = c
            self.got = []

        def _train(self, x, *a):
            self.got.append((x.copy(), a))

        def _execute(self, x):
            return x * 2 + self.c

    class AddArg(Add):
        def _train(self, x, t):
            self.got.append((x.copy(), t))
    cls = [mdp.Flow, mdp.OnlineFlow, mdp.CircularOnlineFlow, bimdp.BiFlow][rng.randint(4)]

    def mk():
        c = rng.randint(1, 9)
        return AddArg(c) if rng.rand() < 0.4 and cls is mdp.OnlineFlow else Add(c)
    flow = cls([mk() for _ in range(rng.randint(1, 4))])
    circ = cls is mdp.CircularOnlineFlow
    out_node = flow[len(flow) - 1]
    if circ and rng.rand() < 0.7:
        k = int(rng.randint(len(flow)))
        flow.set_output_node(k)
        out_node = flow[k]
    ops = []
    for _ in range(rng.randint(1, 6)):
        n = len(flow)
        k = rng.randint(6)
        i = int(rng.randint(n))
        ops.append((k, i))
        if k == 0:
            flow.insert(i, mk())
        elif k == 1:
            flow.append(mk())
        elif k == 2 and n > 1:
            if flow.pop(i) is out_node:
                out_node = flow[len(flow) - 1]
        elif k == 3:
            if flow[i] is out_node:
                flow[i] = mk()
                out_node = flow[len(flow) - 1]
            else:
                flow[i] = mk()
        elif k == 4:
            flow += mk()
        elif k == 5 and n > 1:
            was = flow[i] is out_node
            del flow[i]
            if was:
                out_node = flow[len(flow) - 1]
        rec.event('edits_applied')
    nodes = list(flow)
    if circ:
        pos = [j for j, m in enumerate(nodes) if m is out_node]
        rec.require(nodes[flow.output_node_idx] is out_node, 'output-node',
                    'CircularOnlineFlow: after edits %s the output node is #%d, expected #%s' % (ops, flow.output_node_idx, pos))
        nodes_exec = nodes[:pos[0] + 1]
    else:
        nodes_exec = nodes
    x = rng.randint(-3, 4, size=(4, 2)).astype('d')
    exp = x
    for m in nodes_exec:
        exp = exp * 2 + m.c
    if cls is mdp.OnlineFlow:
        tags = [('t%d' % j,) if isinstance(m, AddArg) else None for j, m in enumerate(nodes)]
        for m in nodes:
            m.got = []
        flow.train([(x,) + tuple(tags)])
        for j, m in enumerate(nodes):
            rec.require(sum(len(g[0]) for g in m.got) == len(x), 'edited-training', 'ops %s: node %d was trained %d times' % (ops, j, len(m.got)))
            if isinstance(m, AddArg):
                rec.require(m.got[0][1] == 't%d' % j, 'edited-training', 'ops %s: node %d got argument %s' % (ops, j, m.got[0][1]))
    elif cls in (mdp.Flow, bimdp.BiFlow):
        for m in nodes:
            m.got = []
        flow.train([[x]] * len(nodes))
        rec.require(all(sum(len(g[0]) for g in m.got) == len(x) for m in nodes), 'edited-training', 'ops %s' % ops)
    y = flow.execute(x)
    if cls is bimdp.BiFlow:
        y = y[0]
    rec.require(np.array_equal(y, exp), 'edited-execution', '%s ops %s' % (cls.__name__, ops))
    rec.case(cls.__name__, ops, rng.randint(1 << 30))


@CHECK.each([(c.__name__, c) for c in (mdp.OnlineFlow, mdp.CircularOnlineFlow)], quick=80, thorough=1500)
def online_training_rule(rng, rec, item):
    """An online flow never holds an ordinary node still to be trained, except (OnlineFlow) at its end; an edit that
    would put one elsewhere is refused and changes nothing, and one that would not is applied."""
    cls = item
    label = cls.__name__
    circ = cls is mdp.CircularOnlineFlow

    class Late(mdp.Node):
        def _train(self, x):
            pass

        def _execute(self, x):
            return x

    def mk(k=None):
        k = rng.choice(['online', 'online', 'fixed', 'trained', 'late']) if k is None else k
        if k == 'online':
            return OnFix(input_dim=2, output_dim=2)
        if k == 'fixed':
            return Fix(input_dim=2, output_dim=2)
        n = Late(input_dim=2, output_dim=2)
        if k == 'trained':
            n.train(np.ones((3, 2)))
            n.stop_training()
        return n

    def late(n):
        return not isinstance(n, mdp.OnlineNode) and n.is_training()

    def valid(nodes):
        return not any(late(n) for n in (nodes if circ else nodes[:-1]))
    names = lambda ns: [type(n).__name__ + ('*' if late(n) else '') for n in ns]
    hist = []
    model = [mk() for _ in range(rng.randint(1, 5))]
    for _ in range(20):
        hist.append('new %s' % names(model))
        try:
            flow = cls(list(model))
            ok = True
        except TypeError:
            ok = False
        rec.require(ok == valid(model), 'constructor-rule', '%s(%s) was %s' % (label, names(model), 'accepted' if ok else 'refused'))
        if ok:
            break
        rec.event('edits_refused')
        model = [mk() for _ in range(rng.randint(1, 4))]
    else:
        raise Skip('no valid start')
    for _ in range(rng.randint(3, 12)):
        n = len(model)
        op = rng.choice(['set', 'setslice', 'insert', 'append', 'extend', 'iadd', 'iadd_flow', 'add', 'add_flow', 'del',
                         'delslice', 'pop', 'slice', 'retrain'])
        i, j = int(rng.randint(n)), int(rng.randint(n + 1))
        new = list(model)
        flexible = False
        result = [None]
        x = mk()
        xs = [mk() for _ in range(rng.randint(1, 4))]
        if op == 'set':
            new[i] = x
            act = lambda: flow.__setitem__(i, x)
            flexible = late(x)
        elif op == 'setslice':
            new[i:j] = xs
            act = lambda: flow.__setitem__(slice(i, j), xs)
            flexible = any(map(late, xs))
        elif op == 'insert':
            new.insert(j, x)
            act = lambda: flow.insert(j, x)
            flexible = late(x)
        elif op == 'append':
            new.append(x)
            act = lambda: flow.append(x)
            flexible = late(x)
        elif op == 'extend':
            new.extend(xs)
            act = lambda: flow.extend(mdp.Flow(list(xs)))
            flexible = any(map(late, xs))
        elif op in ('iadd', 'add'):
            if circ and not isinstance(x, mdp.OnlineNode) and not late(x):
                continue
            new.append(x)
            if op == 'iadd':
                act = lambda: flow.__iadd__(x)
            else:
                act = lambda: result.__setitem__(0, flow + x)
        elif op in ('iadd_flow', 'add_flow'):
            try:
                other = mdp.OnlineFlow(list(xs))
            except TypeError:
                rec.require(any(map(late, xs[:-1])), 'constructor-rule', '%s refused' % names(xs))
                continue
            new.extend(xs)
            if op == 'iadd_flow':
                act = lambda: flow.__iadd__(other)
            else:
                act = lambda: result.__setitem__(0, flow + other)
        elif op in ('del', 'pop'):
            if n == 1:
                continue
            del new[i]
            act = (lambda: flow.__delitem__(i)) if op == 'del' else (lambda: flow.pop(i))
        elif op == 'delslice':
            del new[i:j]
            if not new:
                continue
            act = lambda: flow.__delitem__(slice(i, j))
        elif op == 'slice':
            step = int(rng.choice([1, 1, -1, 2]))
            new = new[::step]
            act = lambda: result.__setitem__(0, flow[::step])
        else:
            # the user finishes the training of the last node himself
            if late(model[-1]):
                model[-1].train(np.ones((3, 2)))
                model[-1].stop_training()
            continue
        pure = op in ('add', 'add_flow', 'slice')
        where = '%s %s: %s to %s' % (label, hist, op, names(new))
        hist.append('%s->%s' % (op, names(new)))
        before = list(flow)
        try:
            act()
            err = None
        except Exception as e:
            err = e
        if err is not None:
            rec.require(not valid(new) or flexible, 'good-edit-refused', lambda: '%s: %r' % (where, err))
            rec.require(isinstance(err, (TypeError, ValueError, mdp.MDPException)), 'wrong-error', lambda: '%s: %r' % (where, err))
            new = model
            rec.event('edits_refused')
        else:
            rec.require(valid(new), 'untrained-node-accepted', where)
            rec.event('edits_applied')
        if pure:
            if err is None:
                rec.require(type(result[0]) is cls and [id(m) for m in result[0]] == [id(m) for m in new], 'result', where)
            new = model
        if err is not None or pure:
            rec.require([id(m) for m in flow] == [id(m) for m in before], 'refused-edit-changed-flow', where)
        rec.require([id(m) for m in flow] == [id(m) for m in new], 'sequence', where)
        model = list(new)
    rec.case(label, hist)


@CHECK.scenario(quick=150, thorough=2000)
def node_plus(rng, rec):
    """node + node and node + flow give the flow of these nodes in this order and leave both operands alone."""
    d = [int(rng.randint(1, 4)) for _ in range(6)]

    def mk(i, o, online=None):
        k = rng.randint(3)
        if online or (online is None and k == 0):
            return OnFix(input_dim=i, output_dim=o)
        if k == 1:
            return Bi(input_dim=i, output_dim=o)
        return Fix(input_dim=i, output_dim=o)
    fit = rng.rand() < 0.75
    left = mk(d[0], d[1])
    i0 = d[1] if fit else d[1] + 1
    x = rng.randn(5, d[0])
    kind = ['node', 'flow', 'flow', 'other'][rng.randint(4)]
    if kind == 'other':
        bad = [None, 3, 'node', np.zeros((2, 2)), [left], object()][rng.randint(6)]
        if isinstance(bad, np.ndarray):
            raise Skip('numpy broadcasts the addition')
        try:
            left + bad
        except TypeError:
            rec.event('edits_refused')
            rec.case('other', type(bad).__name__, d)
            return
        rec.require(False, 'non-node-accepted', '%s + %r' % (type(left).__name__, bad))
        return
    if kind == 'node':
        right = mk(i0, d[2])
        where = '%s(%d,%d) + %s(%d,%d)' % (type(left).__name__, d[0], d[1], type(right).__name__, i0, d[2])
        old = []
    else:
        label, cls, nc = CLASSES[rng.randint(len(CLASSES))]
        n = int(rng.randint(1, 4))
        dims = [i0] + d[2:2 + n]
        old = [mk(dims[k], dims[k + 1], True if nc is OnFix else None) for k in range(n)]
        right = cls(list(old))
        where = '%s(%d,%d) + %s of %s' % (type(left).__name__, d[0], d[1], label, dims)
    try:
        res = left + right
        err = None
    except Exception as e:
        err = e
    rec.require((left.input_dim, left.output_dim) == (d[0], d[1]), 'operand-changed', where)
    if kind == 'flow':
        rec.require(len(right) == len(old) and all(a is b for a, b in zip(right, old)), 'operand-changed',
                    lambda: '%s: right side is now %s' % (where, list(right)))
    circ = kind == 'flow' and isinstance(right, mdp.CircularOnlineFlow)
    if err is not None:
        rec.require(not fit or circ, 'good-edit-refused', lambda: '%s: %r' % (where, err))
        rec.require(isinstance(err, (TypeError, ValueError, mdp.MDPException)), 'wrong-error', lambda: '%s: %r' % (where, err))
        rec.event('edits_refused')
        rec.case('refused', where)
        return
    rec.require(fit, 'bad-edit-accepted', where)
    rec.event('edits_applied')
    if kind == 'flow':
        rec.require(type(res) is type(right) or (isinstance(left, Bi) and isinstance(res, bimdp.BiFlow)), 'class', lambda: '%s: %s' % (where, type(res).__name__))
    else:
        both = isinstance(left, mdp.OnlineNode) and isinstance(right, mdp.OnlineNode)
        rec.require(isinstance(res, mdp.OnlineFlow if both else mdp.Flow), 'class', lambda: '%s: %s' % (where, type(res).__name__))
    want = [left] + (old or [right])
    rec.require([(type(m), m.input_dim, m.output_dim) for m in res] == [(type(m), m.input_dim, m.output_dim) for m in want],
                'sequence', lambda: '%s: %s' % (where, list(res)))
    if not circ and not any(isinstance(m, mdp.OnlineNode) for m in want):
        y = x
        for m in want:
            y = m.execute(y)
        got = res.execute(x)
        got = got[0] if isinstance(got, tuple) else got
        rec.require(np.array_equal(y, got), 'execute', where)
    if kind == 'flow' and isinstance(left, Bi):
        rec.require(not any(m is o for m in res for o in want), 'not-copied', where)
    # the result is a flow of its own
    if kind == 'flow' and len(res) > 1 and not circ:
        res.pop()
        rec.require(len(right) == len(old) and all(a is b for a, b in zip(right, old)), 'operand-shared', where)
    rec.case('plus', where, kind)
