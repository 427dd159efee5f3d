"""P29 bi-directional nodes deliver messages to the right method arguments only."""
import numpy as np
import mdp
import bimdp
from bimdp import BiNode, MSG_ID_SEP, binode_coroutine
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P29', 'A case is one generated BiNode class (method signature, result shape, node id), one generated message '
              '(plain, node qualified for this and other nodes, magic keys) and one call of execute, train or '
              'stop_training; the arguments that reach the method and the combined result are compared with an '
              'independent model of the documented message rules. Distinct by signature, message and result.')
CHECK.expect_events(calls_modelled=3000, keys_delivered=3000, rejected=200)

KEYS = ['a', 'b', 'c', 'd', 'e', 'target', 'method']
IDS = ['n1', 'n2', 'other', 'n', 'n11']


def val(rng):
    k = rng.randint(5)
    if k == 0:
        return int(rng.randint(100))
    if k == 1:
        return rng.randn(3, 2)
    if k == 2:
        return 's%d' % rng.randint(99)
    if k == 3:
        return [int(rng.randint(9))]
    return None if rng.rand() < 0.3 else float(rng.randn())


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return type(a) == type(b) and a == b


def samedict(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


NOARG = object()


def make_method(rng, name, takes_x=True, allow_msg=True):
    """Source of a method with a random signature that logs its arguments."""
    names = [k for k in 'abcde' if rng.rand() < 0.45]
    order = list(rng.permutation(names)) if names else []
    if allow_msg and rng.rand() < 0.3:
        order.insert(rng.randint(len(order) + 1), 'msg')
    ndef = rng.randint(len(order) + 1) if order else 0
    sig = []
    for i, k in enumerate(order):
        sig.append(k if i < len(order) - ndef else '%s="default-%s"' % (k, k))
    required = order[:len(order) - ndef]
    src = 'def _%s(self%s%s):\n    return self._log("%s", %s, dict(%s))\n' % (
        name, ', x' if takes_x else '', ''.join(', ' + s for s in sig), name, 'x' if takes_x else 'None',
        ', '.join('%s=%s' % (k, k) for k in order))
    ns = {}
    exec(src, ns)
    return ns['_' + name], order, required


class Logging(BiNode):
    result = None

    def _log(self, name, x, kw):
        kw = dict(kw)
        if isinstance(kw.get('msg'), dict):
            kw['msg'] = dict(kw['msg'])
        self.calls.append((name, x, kw))
        r = self.result
        return r


def make_msg(rng, node_id, methods, allow_method):
    msg = {}
    for k in 'abcdefg':
        if rng.rand() < 0.4:
            msg[k] = val(rng)
        if rng.rand() < 0.3:
            msg[IDS[rng.randint(len(IDS))] + MSG_ID_SEP + k] = val(rng)
    if rng.rand() < 0.3:
        t = [1, -1, 'n2', 'exit', 2][rng.randint(5)]
        msg[('target' if rng.rand() < 0.5 else IDS[rng.randint(len(IDS))] + MSG_ID_SEP + 'target')] = t
    if allow_method and rng.rand() < 0.35:
        m = (methods + ['nosuch'])[rng.randint(len(methods) + 1)]
        msg[('method' if rng.rand() < 0.5 else IDS[rng.randint(len(IDS))] + MSG_ID_SEP + 'method')] = m
    # insertion order must not matter
    keys = list(msg)
    rng.shuffle(keys)
    return {k: msg[k] for k in keys}


def model_in(node_id, msg):
    """Split off magic keys: (remaining, addressed, target, method)."""
    rest, mine = {}, {}
    for k, v in msg.items():
        if MSG_ID_SEP in k:
            i, kk = k.split(MSG_ID_SEP)
            if i == node_id:
                mine[kk] = v
                continue
        rest[k] = v
    target = mine.pop('target') if 'target' in mine else rest.get('target')
    method = mine.pop('method') if 'method' in mine else rest.get('method')
    return rest, mine, target, method


def model_args(order, rest, mine):
    args = {}
    for k in order:
        if k == 'msg':
            continue
        if k in mine:
            args[k] = mine[k]
        elif k in rest:
            args[k] = rest[k]
    return args


def model_out(result, rest, takes_msg, target):
    """normalised (y, msg, target) of the combined result"""
    if takes_msg:
        rest = {}
    if isinstance(result, tuple):
        y = result[0]
        out = dict(rest)
        out.update(result[1] or {})
        return y, out, (result[2] if len(result) == 3 else target)
    return result, dict(rest), target


def norm(r):
    if not isinstance(r, tuple):
        return r, {}, None
    if len(r) == 2:
        return r[0], r[1] or {}, None
    return r[0], r[1] or {}, r[2]


def make_result(rng, y):
    k = rng.randint(5)
    out = {k2: val(rng) for k2 in 'abxyz' if rng.rand() < 0.3}
    if k == 0:
        return y
    if k in (1, 2):
        return (y, out)
    if k == 3:
        return (y, out, ['n2', 1, -1, 'exit'][rng.randint(4)])
    return (None, out)


def build(rng, trainable=False):
    ms = {}
    names = ['execute', 'inverse', 'special']
    ns = {'calls': None}
    sigs = {}
    for nm in names:
        f, order, req = make_method(rng, nm)
        ns['_' + nm] = f
        sigs[nm] = (order, req)
    if trainable:
        for nm, tx in (('train', True), ('stop_training', False)):
            f, order, req = make_method(rng, nm, takes_x=tx)
            ns['_' + nm] = f
            sigs[nm] = (order, req)
    else:
        ns['is_trainable'] = staticmethod(lambda: False)
    cls = type('Gen', (Logging,), ns)
    node_id = [None, 'n1', 'n2', 'n'][rng.randint(4)]
    return cls, sigs, node_id


def judge(rng, rec, call, node, sigs, default, msg, x, where, method_ok=True):
    """Perform the call and compare what reached the method and what came back."""
    rest, mine, target, method = model_in(node.node_id, msg)
    rec.event('calls_modelled')
    name = method or default
    node.calls = []
    msg_in = dict(msg)
    if method == 'nosuch':
        try:
            call(x, msg_in)
            rec.require(False, 'unknown-method-accepted', where)
        except bimdp.BiNodeException:
            rec.event('rejected')
        rec.require(not node.calls, 'unknown-method-accepted', where)
        return None
    if method == 'inverse' and target is None:
        target = -1
    order, req = sigs[name]
    args = model_args(order, rest, mine)
    if any(k not in args for k in req if k != 'msg'):
        try:
            call(x, msg_in)
            rec.require(False, 'missing-argument', '%s: called although %s is missing' % (where, req))
        except (TypeError, bimdp.BiNodeException):
            rec.event('rejected')
        rec.require(not node.calls, 'missing-argument', where)
        return None
    r = call(x, msg_in)
    rec.require(len(node.calls) == 1 and node.calls[0][0] == name, 'wrong-method', '%s: methods called %s, expected %s' % (
        where, [c[0] for c in node.calls], name))
    got = dict(node.calls[0][2])
    if 'msg' in order:
        gm = got.pop('msg')
        rec.require(isinstance(gm, dict) and samedict(gm, rest), 'wrong-message', lambda: '%s: method got msg %s, expected %s' % (where, gm, rest))
    exp = {k: args.get(k, 'default-%s' % k) for k in order if k != 'msg'}
    rec.event('keys_delivered', len(args))
    rec.require(samedict(got, exp), 'wrong-arguments', lambda: '%s: method got %s, expected %s (message %s)' % (where, got, exp, msg))
    gx = node.calls[0][1]
    rec.require((gx is None) == (x is None) and (x is None or np.array_equal(gx, x)), 'wrong-arguments', where + ': x')
    return r, rest, target, 'msg' in order


def out_ok(rec, r, node, rest, target, takes, where):
    y, m, t = norm(r)
    ye, me, te = model_out(node.result, rest, takes, target)
    rec.require(same(y, ye), 'wrong-result', lambda: '%s: y %r, expected %r' % (where, y, ye))
    rec.require(samedict(m, me), 'wrong-result', lambda: '%s: outgoing message %s, expected %s' % (where, m, me))
    rec.require(same(t, te), 'wrong-result', lambda: '%s: target %r, expected %r' % (where, t, te))


@CHECK.scenario(quick=3000, thorough=40000)
def execute(rng, rec):
    cls, sigs, node_id = build(rng)
    node = cls(node_id=node_id, input_dim=3, output_dim=3)
    x = rng.randn(4, 3) if rng.rand() < 0.6 else None
    msg = make_msg(rng, node_id, ['execute', 'special', 'inverse'], True)
    node.result = make_result(rng, rng.randn(4, 3))
    res0 = node.result if not isinstance(node.result, tuple) else tuple(
        dict(q) if isinstance(q, dict) else q for q in node.result)
    where = 'node %r, message %s, signatures %s' % (node_id, list(msg), sigs)
    if not msg and x is None:
        try:
            node.execute(None, None)
            rec.require(False, 'nothing-accepted', where)
        except bimdp.BiNodeException:
            rec.event('rejected')
        raise Skip()
    x0 = None if x is None else x.copy()
    j = judge(rng, rec, node.execute, node, sigs, 'execute', msg, x, where)
    if j is not None:
        out_ok(rec, j[0], node, j[1], j[2], j[3], where)
        if isinstance(res0, tuple) and res0[1] is not None:
            rec.require(samedict(node.result[1], res0[1]) or j[1] is not None, 'result-altered', where)
    rec.require(x is None or np.array_equal(x, x0), 'data-altered', where)
    # the data contract holds for messages as well
    if x is not None and node.input_dim == 3 and 'execute' and j is not None and model_in(node_id, msg)[3] in (None, 'execute'):
        try:
            node.execute(np.zeros((4, 5)), dict(msg))
            rec.require(False, 'dims-accepted', where)
        except mdp.NodeException:
            rec.event('rejected')
    rec.case(node_id, sorted(msg), str(sigs), rng.randint(1 << 30))


@CHECK.scenario(quick=2000, thorough=25000)
def training(rng, rec):
    cls, sigs, node_id = build(rng, trainable=True)
    stop_result = None
    if rng.rand() < 0.4:
        stop_result = ({k: val(rng) for k in 'pqa' if rng.rand() < 0.6}, [1, -1, 'n2', None][rng.randint(4)])
    node = cls(node_id=node_id, stop_result=stop_result)
    where = 'training node %r, signatures %s, stop_result %s' % (node_id, {k: sigs[k] for k in ('train', 'stop_training')}, stop_result)
    stop0 = None if stop_result is None else (dict(stop_result[0]), stop_result[1])
    x = rng.randn(5, 3)
    for _ in range(rng.randint(1, 4)):
        msg = make_msg(rng, node_id, ['special', 'train'], True)
        node.result = None if rng.rand() < 0.4 else make_result(rng, rng.randn(5, 3))
        w = '%s, message %s' % (where, list(msg))
        xx = x if rng.rand() < 0.8 else None
        if xx is None and not msg:
            continue
        j = judge(rng, rec, node.train, node, sigs, 'train', msg, xx, w)
        if j is None:
            continue
        r, rest, target, takes = j
        if node.result is None:
            rec.require(r is None, 'train-goes-on', '%s: _train returned None but train returned %r' % (w, r))
        else:
            y, m, t = model_out(node.result, rest, takes, target)
            if y is None and t is None:
                rec.require(r is None, 'train-goes-on', '%s: (None, msg) must end the training of this chunk, got %r' % (w, r))
            else:
                out_ok(rec, r, node, rest, target, takes, w)
    if not node._train_phase_started:
        try:
            node.stop_training()
            rec.require(False, 'stage', where + ': untrained node stopped')
        except mdp.TrainingException:
            rec.event('rejected')
        node._train_phase_started = True
    # stop training
    msg = make_msg(rng, node_id, ['special', 'stop_training'], False) if rng.rand() < 0.7 else {}
    node.result = None if rng.rand() < 0.3 else make_result(rng, rng.randn(5, 3))
    order, req = sigs['stop_training']
    if not msg:
        if req:
            raise Skip()
        node.calls = []
        r = node.stop_training() if rng.rand() < 0.5 else node.stop_training({})
        rest, target, takes = {}, None, False
        rec.require(len(node.calls) == 1, 'wrong-method', where)
    else:
        def call(x, m):
            return node.stop_training(m)
        j = judge(rng, rec, call, node, sigs, 'stop_training', msg, None, where + ' message %s' % list(msg))
        if j is None:
            rec.require(node.is_training() or True, 'stage', where)
            raise Skip()
        r, rest, target, takes = j
    rec.require(not node.is_training(), 'stage', where + ': still training after stop_training')
    if stop_result is not None:
        base = dict(stop_result[0])
        if not takes:
            base.update(rest)
        rest = base
        takes = False
        if target is None:
            target = stop_result[1]
    elif node.result is None and rest and not takes:
        # nothing returned, message left over: not specified
        rec.case(node_id, 'leftover', sorted(msg), rng.randint(1 << 30))
        return
    out_ok(rec, r, node, rest, target, takes, where + ' stop message %s' % list(msg))
    if stop0 is not None:
        rec.require(samedict(stop_result[0], stop0[0]) and stop_result[1] == stop0[1], 'stop-result-altered', where)
    for f in (lambda: node.train(x, {'a': 1}), lambda: node.train(x), lambda: node.stop_training({'a': 1})):
        try:
            f()
            rec.require(False, 'stage', where + ': finished node accepted')
        except mdp.TrainingFinishedException:
            rec.event('rejected')
    rec.case(node_id, str(sigs), sorted(msg), str(stop_result)[:80], rng.randint(1 << 30))


@CHECK.scenario(quick=400, thorough=4000)
def coroutines(rng, rec):
    """A coroutine method goes on where it stopped; a reset starts it again;
    instances do not share it."""
    n = int(rng.randint(1, 5))
    ends = rng.rand() < 0.5
    last = int(rng.randint(5)) if ends else 0       # what the coroutine returns at its end

    class Co(BiNode):
        @staticmethod
        def is_trainable():
            return False

        @binode_coroutine(['a', 'b'], defaults=(7,))
        def _execute(self, x, a, b=5):
            tot = 0
            for _ in range(n):
                tot += a * 100 + b
                x, a, b = yield x * 2, {'tot': tot}
            if not ends:
                while True:
                    x, a, b = yield x * 3, {'late': a}
            return [None, x * 4, (x * 4, {'end': a}), (x * 4, {'end': a}, 'nx'), (None, {'end': a})][last]

        @binode_coroutine(['a'])
        def _short(self, x, a):
            if a < 0:
                yield x
            return [None, x * 4, (x * 4, {'end': a}), (x * 4, {'end': a}, 'nx'), (None, {'end': a})][last]
    nodes = [Co(node_id='n1'), Co(node_id='n2')]
    state = [None, None]     # (calls so far, total)
    for step in range(rng.randint(3, 14)):
        i = int(rng.randint(2))
        node = nodes[i]
        if rng.rand() < 0.2:
            node.bi_reset()
            state[i] = None
            rec.event('resets')
            continue
        x = rng.randn(2, 2)
        a = int(rng.randint(9))
        b = int(rng.randint(9)) if rng.rand() < 0.5 else None
        msg = {'a': a, 'keep': step}
        if b is not None:
            msg[('b' if rng.rand() < 0.5 else 'n%d->b' % (i + 1))] = b
        r = node.execute(x, msg)
        rec.event('calls_modelled')
        k, tot = state[i] or (0, 0)
        bb = b if b is not None else (5 if k == 0 else 7)
        where = 'coroutine step %d of node %d' % (k, i)
        if k < n:
            tot += a * 100 + bb
            rec.require(isinstance(r, tuple) and np.array_equal(r[0], x * 2) and r[1].get('tot') == tot and
                        r[1].get('keep') == step, 'coroutine', '%s: %r, expected total %d' % (where, r, tot))
            state[i] = (k + 1, tot)
        elif ends:
            y, m, t = norm(r)
            rec.require(same(y, x * 4 if last in (1, 2, 3) else None) and m.get('keep') == step, 'coroutine', lambda: '%s: ended with %r' % (where, r))
            rec.require(t == ('nx' if last == 3 else None) and m.get('end') == (a if last >= 2 else None), 'coroutine', lambda: '%s: ended with %r' % (where, r))
            state[i] = None
            y, m, t = norm(node.execute(x, {'method': 'short', 'a': 3}))
            rec.require(same(y, x * 4 if last in (1, 2, 3) else None) and t == ('nx' if last == 3 else None) and
                        m.get('end') == (3 if last >= 2 else None), 'coroutine', lambda: '%s: without a yield %r' % (where, (y, m, t)))
        else:
            rec.require(np.array_equal(r[0], x * 3) and r[1].get('late') == a, 'coroutine', '%s: %r' % (where, r))
            state[i] = (k + 1, tot)
    rec.case(n, ends, last, rng.randint(1 << 30))


@CHECK.scenario(quick=300, thorough=3000)
def classifiers(rng, rec):
    """Classification results travel in the message, data pass unchanged."""
    name = ['GaussianClassifier', 'NearestMeanClassifier', 'KNNClassifier', 'SimpleMarkovClassifier'][rng.randint(3)]
    bi = getattr(bimdp.nodes, name[:-len('Classifier')] + 'BiClassifier')
    plain = getattr(mdp.nodes, name)
    X = np.vstack([rng.randn(12, 2) + m for m in ((0, 0), (4, 1), (0, 5))])
    L = np.repeat(['u', 'v', 'w'], 12)
    p = rng.permutation(36)
    X, L = X[p], L[p]
    nid = 'c' if rng.rand() < 0.5 else None
    node, ref = bi(node_id=nid), plain()
    lk = 'c->labels' if nid and rng.rand() < 0.5 else 'labels'
    node.train(X, {lk: L})
    ref.train(X, L)
    node.stop_training()
    ref.stop_training()
    x = rng.randn(7, 2) * 3
    for _ in range(4):
        msg = {}
        for what in ('labels', 'probs', 'ranks'):
            if rng.rand() < 0.6:
                key = 'return_' + what
                msg['c->' + key if nid and rng.rand() < 0.5 else key] = [True, 'pre_', False][rng.randint(3)]
        msg['other'] = 5
        exp = {'other': 5}
        for k, v in msg.items():
            kk = k.split('->')[-1]
            if not kk.startswith('return_'):
                continue
            if '->' not in k:
                exp[k] = v
            if v:
                what = kk[7:]
                try:
                    exp[(v if isinstance(v, str) else '') + what] = getattr(ref, what[:-1])(x)
                except NotImplementedError:
                    exp = None
                    break
        if exp is None:
            continue
        y, m, t = norm(node.execute(x, dict(msg)))
        rec.event('calls_modelled')
        rec.require(np.array_equal(y, x) and t is None, 'classifier-message', '%s: data changed' % name)
        rec.require(set(m) == set(exp), 'classifier-message', '%s: keys %s, expected %s' % (name, sorted(m), sorted(exp)))
        for k in exp:
            a, b = m[k], exp[k]
            if k.endswith('probs') and isinstance(b, list):
                ok = all(set(p) == set(q) and all(np.isclose(p[z], q[z]) for z in q) for p, q in zip(a, b))
            else:
                ok = np.all(np.asarray(a) == np.asarray(b))
            rec.require(ok, 'classifier-message', '%s: %s' % (name, k))
        rec.event('keys_delivered', len(exp))
    rec.case(name, nid, lk, rng.randint(1 << 30))


class MsgNode(BiNode):
    """Uses an array of the message and a scalar, sends both on."""
    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x, arr=None, s=0):
        out = {}
        if arr is not None:
            out['arr'] = arr * 2
        y = None if x is None else x + s
        return y, out

    def _special(self, x, arr, s=0):
        return (None if x is None else x - s), {'got': arr + s}


@CHECK.scenario(quick=600, thorough=6000)
def layers(rng, rec):
    """A cloned bi-layer hands each node its part of the data and of every
    array that can be split evenly, and joins the results."""
    n = int(rng.randint(1, 5))
    d = int(rng.randint(1, 4))
    from bimdp.hinet import CloneBiLayer
    layer = CloneBiLayer(MsgNode(input_dim=d, output_dim=d, node_id='inner'), n_nodes=n, use_copies=bool(rng.randint(2)),
                         node_id='layer')
    for _ in range(3):
        x = rng.randn(4, n * d) if rng.rand() < 0.8 else None
        k = int(rng.randint(1, 3)) * n if rng.rand() < 0.6 else n * 2 + (1 if n > 1 else 0)
        arr = rng.randn(4, k)
        s = int(rng.randint(5))
        msg = {'arr': arr, 's': s, 'free': 'z'}
        arr0 = arr.copy()
        special = rng.rand() < 0.3
        if special:
            msg['method'] = 'special'
        if rng.rand() < 0.3:
            flag = bool(rng.randint(2))
            msg['layer->use_copies' if rng.rand() < 0.5 else 'use_copies'] = flag
        else:
            flag = layer.use_copies
        where = 'CloneBiLayer n=%d d=%d array width %d special=%s' % (n, d, k, special)
        y, m, t = norm(layer.execute(x, dict(msg)))
        rec.event('calls_modelled')
        rec.require(np.array_equal(arr, arr0), 'data-altered', where)
        rec.require(layer.use_copies == flag and all((q is layer.nodes[0]) != flag for q in layer.nodes[1:]), 'layer-switch', where)
        split = k % n == 0
        ye = None if x is None else (x - s if special else x + s)
        rec.require(same(y, ye), 'layer-data', lambda: '%s: %r, expected %r' % (where, y, ye))
        rec.require(t is None, 'layer-data', where)
        if special:
            # an unsplit array is handed to every node, results are joined
            e = arr + s if split or n == 1 else np.hstack([arr + s] * n)
            rec.require('got' in m and same(m['got'], e), 'layer-message', lambda: '%s: got %s' % (where, m.get('got', np.zeros(0)).shape))
            rec.require(same(m['arr'], arr), 'layer-message', where)
        else:
            e = arr * 2 if split or n == 1 else np.hstack([arr * 2] * n)
            rec.require(same(m['arr'], e), 'layer-message', lambda: '%s: arr %s' % (where, m['arr'].shape))
        rec.require(m.get('free') == 'z' and m.get('s') == s, 'layer-message', where)
        rec.event('keys_delivered', 3)
    rec.case(n, d, rng.randint(1 << 30))


@CHECK.scenario(quick=400, thorough=4000)
def switchboards(rng, rec):
    """Arrays of the message which fit the board are routed like the data."""
    from bimdp.hinet import BiSwitchboard
    n = int(rng.randint(2, 7))
    perm = rng.permutation(n) if rng.rand() < 0.5 else rng.randint(0, n, rng.randint(1, 9))
    inv = sorted(perm) == list(range(n))
    node = BiSwitchboard(input_dim=n, connections=np.array(perm), node_id='sb')
    x = rng.randn(3, n)
    other = rng.randn(3, n + 1)
    fit = rng.randn(5, n)
    msg = {'fit': fit, 'other': other, 'k': 3}
    y, m, t = norm(node.execute(x, dict(msg)))
    rec.event('calls_modelled')
    rec.require(same(y, x[:, perm]), 'switchboard', 'data')
    rec.require(same(m['fit'], fit[:, perm]), 'switchboard', 'fitting array not routed')
    rec.require(same(m['other'], other) and m['k'] == 3, 'switchboard', 'other entries changed')
    if inv:
        y2, m2, t2 = norm(node.execute(y, {'method': 'inverse', 'fit': m['fit'], 'other': other}))
        rec.require(same(y2, x) and same(m2['fit'], fit) and same(m2['other'], other) and t2 == -1, 'switchboard', 'inverse')
    y3, m3, t3 = norm(node.execute(None, {'fit': fit}))
    rec.require(y3 is None and same(m3['fit'], fit[:, perm]), 'switchboard', 'message only')
    rec.event('keys_delivered', 4)
    rec.case(n, perm.tolist(), rng.randint(1 << 30))


@CHECK.scenario(quick=200, thorough=2000)
def clone_training(rng, rec):
    """Training a cloned bi-layer: one instance sees every part, copies see
    only their own; switching back keeps the first copy."""
    from bimdp.hinet import CloneBiLayer
    n, d = int(rng.randint(1, 4)), 3
    copies = bool(rng.randint(2))
    layer = CloneBiLayer(bimdp.nodes.PCABiNode(input_dim=d), n_nodes=n, use_copies=copies)
    X = [C.smooth_mix(rng, 60, n * d) for _ in range(2)]
    for x in X:
        layer.train(x)
    layer.stop_training()
    ref = []
    if copies:
        for i in range(n):
            p = mdp.nodes.PCANode()
            for x in X:
                p.train(x[:, i * d:(i + 1) * d])
            p.stop_training()
            ref.append(p)
    else:
        p = mdp.nodes.PCANode()
        for x in X:
            for i in range(n):
                p.train(x[:, i * d:(i + 1) * d])
        p.stop_training()
        ref = [p] * n
    x = rng.randn(6, n * d)

    def expect(ref):
        return np.hstack([r.execute(x[:, i * d:(i + 1) * d]) for i, r in enumerate(ref)])
    for use in [copies] + [bool(rng.randint(2)) for _ in range(3)]:
        was = layer.use_copies
        if rng.rand() < 0.5:
            layer.use_copies = use
            y = norm(layer.execute(x))[0]
        else:
            y = norm(layer.execute(x, {'use_copies': use}))[0]
        if was and not use:
            ref = [ref[0]] * n
        rec.require(layer.use_copies == use, 'clone-training', 'use_copies flag')
        rec.require(y.shape == (6, n * d) and np.allclose(y, expect(ref)), 'clone-training',
                    'n=%d copies=%s switched to %s' % (n, copies, use))
        rec.event('calls_modelled')
    rec.case(n, copies, rng.randint(1 << 30))


class RecNode(BiNode):
    """Records what it is trained with; returns results of a chosen kind."""

    def __init__(self, phases=1, kinds=((0, 0),), log=None, **kw):
        self.phases, self.kinds = phases, kinds
        self.log = []
        super(RecNode, self).__init__(**kw)

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def _give(self, kind, x, arr, s, n):
        if kind == 0:
            return None
        msg = {'count': n, 'new': s}
        if arr is not None:
            msg['arr'] = arr * 3
        if kind == 1:
            return x * 2
        if kind == 2:
            return x * 2 + s, msg
        return x * 2 + s, msg, ['nx', 1][kind - 3]

    def _train(self, x, arr=None, s=0):
        self.log.append(('train', self.get_current_train_phase(), None if x is None else x.copy(), arr, s))
        return self._give(self.kinds[self._train_phase][0], np.zeros((2, 2)) if x is None else x, arr, s, len(self.log))

    def _stop_training(self, arr=None, s=0):
        self.log.append(('stop', self._train_phase, None, arr, s))
        return self._give(self.kinds[self._train_phase][1], np.ones((3, self.input_dim)) * len(self.log), arr, s, len(self.log))

    def _execute(self, x):
        return x + 100 * len(self.log)


def split_msg(msg, n):
    """Per node messages (documented rule of the cloned layer)."""
    out = [{} for _ in range(n)]
    for k, v in msg.items():
        for i in range(n):
            if isinstance(v, np.ndarray) and v.ndim >= 2 and v.shape[1] % n == 0:
                w = v.shape[1] // n
                out[i][k] = v[:, i * w:(i + 1) * w]
            else:
                out[i][k] = v
    return out


def join_results(rs, n):
    rs = [norm(r) for r in rs]
    y = None if rs[-1][0] is None else np.hstack([r[0] for r in rs])
    m = {}
    for k, v in rs[-1][1].items():
        if n > 1 and isinstance(v, np.ndarray) and v.ndim >= 2 and v is not rs[0][1][k]:
            m[k] = np.hstack([r[1][k] for r in rs])
        else:
            m[k] = v
    return y, m, rs[-1][2]


@CHECK.scenario(quick=400, thorough=4000)
def layer_training(rng, rec):
    """Training a cloned bi-layer with messages, several phases and results:
    each node gets its part, and what comes back is joined."""
    from bimdp.hinet import CloneBiLayer
    from bimdp.hinet.bilayer import CloneBiLayerException
    n = int(rng.randint(1, 5))
    d = int(rng.randint(1, 4))
    phases = int(rng.randint(1, 4))
    kinds = tuple((int(rng.randint(5)), int(rng.randint(5))) for _ in range(phases))
    sr = None
    if rng.rand() < 0.3:
        sr = [({'st': i}, [1, 'nx'][rng.randint(2)]) for i in range(phases)]
        if phases == 1:
            sr = sr[0]

    def make():
        return RecNode(phases, kinds, input_dim=d, output_dim=d, node_id='inner', stop_result=sr)
    copies = bool(rng.randint(2))
    layer = CloneBiLayer(make(), n_nodes=n, use_copies=copies, node_id='layer')
    if copies:
        refs = [make() for _ in range(n)]
    else:
        refs = [make()] * n
    where = 'CloneBiLayer n=%d d=%d phases=%d kinds=%s stop_result=%s copies=%s' % (n, d, phases, kinds, sr is not None, copies)

    def switch(flag):
        """False when the layer must refuse it."""
        one = all(r is refs[0] for r in refs) and not copies_now[0]
        if flag and one:
            r = refs[0]
            refs[:] = [r.copy() for _ in range(n)]
            copies_now[0] = True
        elif not flag and not one:
            return False
        return True
    copies_now = [copies]
    for ph in range(phases):
        for _ in range(rng.randint(1, 4)):
            x = rng.randn(4, n * d)
            msg = {}
            if rng.rand() < 0.6:
                k = int(rng.randint(1, 3)) * n + int(rng.randint(2))
                arr = rng.randn(4, k)
                msg['inner->arr' if rng.rand() < 0.3 else 'arr'] = arr
            if rng.rand() < 0.5:
                msg['s'] = int(rng.randint(9))
            if rng.rand() < 0.4:
                msg['free'] = rng.randn(3, n * 2)
            if rng.rand() < 0.3:
                msg['other->s'] = 5
            flag = None
            if rng.rand() < 0.25:
                flag = bool(rng.randint(2))
                key = 'layer->use_copies' if rng.rand() < 0.5 else 'use_copies'
                msg[key] = flag
            sent = dict(msg)
            if flag is not None and not switch(flag):
                try:
                    layer.train(x, sent)
                    rec.require(False, 'layer-switch', where + ': copies dropped while training')
                except CloneBiLayerException:
                    rec.event('rejected')
                continue
            if flag is not None and key.startswith('layer'):
                del msg[key]
            x0 = x.copy()
            if not sent and rng.rand() < 0.5:
                r = layer.train(x)
            else:
                r = layer.train(x, sent)
            rec.event('calls_modelled')
            parts = split_msg(msg, n)
            rr = [q.train(x[:, i * d:(i + 1) * d], dict(parts[i]) or None) for i, q in enumerate(refs)]
            want = join_results(rr, n)
            got = norm(r)
            if got[0] is None and got[2] is None:
                got = (None, {}, None)
            if want[0] is None and want[2] is None:
                want = (None, {}, None)
            w = '%s phase %d train with %s' % (where, ph, sorted(sent))
            rec.require(np.array_equal(x, x0), 'data-altered', w)
            rec.require(same(got[0], want[0]) and same(got[2], want[2]), 'layer-train', lambda: '%s: %r, expected %r' % (w, got, want))
            rec.require(samedict(got[1], want[1]), 'layer-train', lambda: '%s: message %s, expected %s' % (w, got[1], want[1]))
        if not refs[0]._train_phase_started:
            x = rng.randn(3, n * d)
            layer.train(x)
            for i, q in enumerate(refs):
                q.train(x[:, i * d:(i + 1) * d])
        msg = {}
        if rng.rand() < 0.6:
            msg['s'] = int(rng.randint(9))
        if rng.rand() < 0.4:
            msg['arr'] = rng.randn(2, n * 2)
        if rng.rand() < 0.3:
            msg['free'] = 'z'
        if rng.rand() < 0.2 and switch(True):
            msg['use_copies'] = True
        w = '%s phase %d stop with %s' % (where, ph, sorted(msg))
        r = layer.stop_training(dict(msg)) if msg or rng.rand() < 0.5 else layer.stop_training()
        rec.event('calls_modelled')
        if copies_now[0]:
            parts = split_msg(msg, n)
            want = join_results([q.stop_training(dict(p)) for q, p in zip(refs, parts)], n)
        else:
            want = norm(refs[0].stop_training(dict(msg)))
        got = norm(r)
        rec.require(same(got[0], want[0]) and same(got[2], want[2]), 'layer-stop', lambda: '%s: %r, expected %r' % (w, got, want))
        rec.require(samedict(got[1], want[1]), 'layer-stop', lambda: '%s: message %s, expected %s' % (w, got[1], want[1]))
        for a, b in zip(layer.nodes, refs):
            ok = len(a.log) == len(b.log) and all(p[:2] == q[:2] and all(same(u, v) for u, v in zip(p[2:], q[2:])) for p, q in zip(a.log, b.log))
            rec.require(ok, 'layer-delivery', lambda: '%s: node got %s, expected %s' % (w, [p[:2] for p in a.log], [q[:2] for q in b.log]))
        rec.event('keys_delivered', sum(len(q.log) for q in refs))
        rec.require(layer.is_training() == (ph < phases - 1), 'layer-stage', w)
    rec.require(layer.use_copies == copies_now[0], 'layer-switch', where + ': use_copies')
    x = rng.randn(3, n * d)
    y = norm(layer.execute(x))[0]
    rec.require(same(y, np.hstack([q.execute(x[:, i * d:(i + 1) * d]) for i, q in enumerate(refs)])), 'layer-delivery', where + ': execute')
    rec.case(n, d, phases, kinds, rng.randint(1 << 30))


@CHECK.scenario(quick=300, thorough=3000)
def inversion_by_message(rng, rec):
    """{'method': 'inverse'} means what a call of inverse means, checks included."""
    N = bimdp.nodes
    d = int(rng.randint(2, 6))
    dt = 'f' if rng.rand() < .4 else 'd'
    mk = [lambda k: N.PCABiNode(**k), lambda k: N.PCABiNode(output_dim=d - 1, **k), lambda k: N.WhiteningBiNode(**k),
          lambda k: N.SFABiNode(**k), lambda k: N.IdentityBiNode(**k), lambda k: N.QuadraticExpansionBiNode(**k),
          lambda k: N.EtaComputerBiNode(**k), lambda k: N.HitParadeBiNode(1, **k)][rng.randint(8)]
    kw = dict(node_id='n1')
    if rng.rand() < .5:
        kw['dtype'] = dt
    node = mk(kw)
    where = '%s dtype %s' % (type(node).__name__, dt)
    y0 = rng.randn(5, d).astype(dt)
    msg = {'method' if rng.rand() < .5 else 'n1->method': 'inverse', 'k': 1}

    def ask(y):
        return node.execute(y, dict(msg))

    def fails(y, exc, what):
        try:
            r = ask(y)
        except exc:
            rec.event('rejected')
            return
        rec.require(False, 'inverse-accepted', lambda: '%s: %s gave %r' % (where, what, r))
    if node.is_trainable() and rng.rand() < .3:
        fails(y0, mdp.NodeException, 'inverse of an untrained node')
        rec.case(where, 'untrained', rng.randint(1 << 30))
        return
    X = C.smooth_mix(rng, 80, d).astype(dt)
    if node.is_trainable():
        node.train(X)
        closed = rng.rand() < .5
        if closed:
            node.stop_training()
    else:
        node.execute(X)
    if not node.is_invertible():
        fails(y0, mdp.IsNotInvertibleException, 'inverse of a node without inverse')
        rec.case(where, 'not invertible', rng.randint(1 << 30))
        return
    ref = node.copy()
    o = ref.execute(X).shape[1]
    y = rng.randn(6, o)
    if rng.rand() < .5:
        y = y.astype('f')
    kept = y.copy()
    want = ref.inverse(y)
    got = norm(ask(y))
    rec.event('calls_modelled')
    rec.require(not node.is_training(), 'inverse-message', where + ': still training')
    rec.require(got[2] == -1 and got[1].get('k') == 1, 'inverse-message', lambda: '%s: %r' % (where, got[1:]))
    rec.require(np.array_equal(y, kept), 'data-altered', where)
    rec.require(got[0].dtype == want.dtype and np.allclose(got[0], want, rtol=1e-4, atol=1e-5), 'inverse-message',
                lambda: '%s: %s %s, inverse() gives %s %s' % (where, got[0].dtype, got[0][:1], want.dtype, want[:1]))
    fails(rng.randn(4, o + 1), mdp.NodeException, 'data of wrong dimension')
    fails(rng.randn(4), mdp.NodeException, 'data of wrong rank')
    rec.event('keys_delivered')
    rec.case(where, o, y.dtype.char, rng.randint(1 << 30))
