"""P10 checkpoints run once per node, at the right moment, and do not alter training."""
import copy
import os
import pickle
import shutil
import tempfile
import numpy as np
import mdp
import bimdp
import mdp.nodes as mn
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P10', 'A case trains a generated flow of one of the checkpoint flow classes (scheduler or not), with a '
              'generated list of checkpoint functions (recording, dictionary-returning, saving, none, one for all); '
              'every checkpoint call is logged with the stage of all nodes and a snapshot of its node and the log is '
              'judged against a reference flow trained by hand. Distinct by class, nodes, data form and seed.')
CHECK.expect_events(checkpoint_calls=800, snapshots_compared=800, files_loaded=150)


class NonPar(mdp.Node):
    """Two-phase node without parallel support."""
    def __init__(self, **k):
        super(NonPar, self).__init__(**k)
        self.a = self.n = self.s = 0

    def _get_train_seq(self):
        return [(self._t1, self._s1), (self._t2, self._s2)]

    def _t1(self, x):
        self.a = self.a + x.sum(0)
        self.n += len(x)

    def _s1(self):
        self.a = self.a / self.n

    def _t2(self, x):
        self.s = self.s + ((x - self.a) ** 2).sum(0)

    def _s2(self):
        self.s = np.sqrt(self.s / self.n) + 0.1

    def _execute(self, x):
        return (x - self.a) / self.s


def close(a, b):
    """Equal up to the sign of each feature (eigenvectors)."""
    if a.shape != b.shape:
        return False
    s = np.sign((a * b).sum(0))
    return C.maxdiff(a * np.where(s == 0, 1, s), b) <= 1e-6 * C.scale(b)


POOL = [lambda: mn.PCANode(), lambda: NonPar(), lambda: mn.IdentityNode(), lambda: mn.WhiteningNode(),
        lambda: mn.SFANode(), lambda: mn.NormalizeNode() if hasattr(mn, 'NormalizeNode') else mn.PCANode(),
        lambda: mdp.hinet.FlowNode(mdp.Flow([mn.PCANode(), mn.SFANode()])),
        lambda: mn.PolynomialExpansionNode(1), lambda: mdp.hinet.CloneLayer(mn.PCANode(input_dim=3), 1),
        lambda: mn.CutoffNode(-50, 50)]
BIPOOL = [lambda: bimdp.nodes.PCABiNode(), lambda: NonPar(), lambda: bimdp.nodes.SFABiNode(),
          lambda: mn.IdentityNode(), lambda: mn.WhiteningNode()]


class Log(object):
    def __init__(self):
        self.calls = []


class Rec(mdp.CheckpointFunction):
    def __init__(self, log, i, ret, flow):
        self.log, self.i, self.ret, self.flow = log, i, ret, flow

    def __call__(self, node):
        f = self.flow[0]
        self.log.calls.append(dict(i=self.i, node=node, snap=copy.deepcopy(node),
                                   stages=[(m.get_current_train_phase(), getattr(m, "_train_phase_started", None), m.is_training()) for m in f],
                                   vars={k: v for k, v in f.__dict__.items() if str(k).startswith('ck')}))
        return self.ret


def hand(nodes, X):
    for i, n in enumerate(nodes):
        while n.is_training():
            for x in X:
                for p in nodes[:i]:
                    x = p.execute(x)
                n.train(x)
            n.stop_training()
    return nodes


def run_flow(rng, flow, cls, data, cks, rec):
    kw = {}
    sch = None
    if cls in (mdp.parallel.ParallelCheckpointFlow, bimdp.parallel.ParallelCheckpointBiFlow):
        k = rng.randint(3)
        if k == 1:
            sch = mdp.parallel.Scheduler()
        elif k == 2:
            sch = mdp.parallel.ThreadScheduler(n_threads=2)
        if sch is not None:
            kw['scheduler'] = sch
            rec.event('parallel_trainings')
    try:
        flow.train(data, cks, **kw)
    finally:
        if sch is not None:
            sch.shutdown()
    return sch


@CHECK.scenario(quick=700, thorough=6000)
def checkpoints(rng, rec):
    cls = [mdp.CheckpointFlow, mdp.parallel.ParallelCheckpointFlow, bimdp.BiCheckpointFlow,
           bimdp.parallel.ParallelCheckpointBiFlow][rng.randint(4)]
    bi = cls in (bimdp.BiCheckpointFlow, bimdp.parallel.ParallelCheckpointBiFlow)
    pool = BIPOOL if bi else POOL
    n = int(rng.randint(1, 5))
    nodes = [pool[rng.randint(len(pool))]() for _ in range(n)]
    # variance based nodes are ill-posed on data made white by an earlier node
    for i in range(1, n):
        if any(not isinstance(m, (mn.PCANode, mn.IdentityNode, mn.CutoffNode)) or isinstance(m, mn.WhiteningNode)
               for m in nodes[:i]):
            if isinstance(nodes[i], (mn.PCANode, mdp.hinet.FlowNode, mdp.hinet.CloneLayer)):
                nodes[i] = bimdp.nodes.SFABiNode() if bi else mn.SFANode()
    X = [C.smooth_mix(rng, 40, 3) for _ in range(rng.randint(1, 4))]
    probe = C.smooth_mix(rng, 9, 3)
    pre = rng.rand() < 0.25 and n > 1
    if pre:
        hand(nodes[:1], X)
    ref = hand([m.copy() for m in nodes], X)
    refout = [probe]
    for m in ref:
        refout.append(m.execute(refout[-1]))
    was_training = [m.is_training() for m in nodes]
    where = '%s %s chunks=%d pretrained=%s' % (cls.__name__, [type(m).__name__ for m in nodes], len(X), pre)
    d = tempfile.mkdtemp(prefix='verifp10')
    try:
        log, holder = Log(), [None]
        flow = cls(nodes)
        holder[0] = flow
        cks, saves = [], {}
        for i in range(n):
            k = rng.randint(5)
            if k == 0:
                cks.append(None)
            elif k in (1, 2):
                cks.append(Rec(log, i, {'ck%d' % i: i * 10 + 1, 'ckall': i} if k == 1 else
                               [None, {}, None][rng.randint(3)], holder))
            elif k == 3:
                fn = lambda node, _i=i: Rec(log, _i, None, holder)(node)
                cks.append(fn)
            else:
                open_ok = (cls is mdp.CheckpointFlow and was_training[i] and rng.rand() < 0.5)
                fn = os.path.join(d, 'n%d.pic' % i)
                sv = mdp.CheckpointSaveFunction(fn, stop_training=int(open_ok), binary=int(rng.randint(2)),
                                                protocol=int(rng.randint(0, 4)))
                saves[i] = (fn, open_ok)

                def both(node, _sv=sv, _i=i):
                    # record before and after saving
                    r = Rec(log, _i, None, holder)
                    r(node)
                    log.calls[-1]['saved'] = True
                    return _sv(node)
                cks.append(both)
        single = rng.rand() < 0.1
        if single:
            saves = {}
            one = Rec(log, None, {'ckone': 1}, holder)
            arg = one
        else:
            arg = cks
        form = rng.randint(3)
        if form == 0 and len(X) == 1:
            data = X[0]
        else:
            data = [None if not was_training[i] and rng.rand() < 0.5 else list(X) for i in range(n)]
        run_flow(rng, flow, cls, data, arg, rec)
        rec.event('checkpoint_calls', len(log.calls))
        # exactly once each, in order, with its node
        idx = [[j for j, m in enumerate(nodes) if m is c['node']] for c in log.calls]
        rec.require(all(len(i) == 1 for i in idx), 'wrong-node', '%s: a checkpoint got a node which is not in the flow' % where)
        idx = [i[0] for i in idx]
        exp = [i for i in range(n) if (single or (cks[i] is not None))]
        must = [i for i in exp if was_training[i]]
        rec.require(len(set(idx)) == len(idx), 'called-twice', '%s: checkpoint calls for nodes %s' % (where, idx))
        rec.require(set(must) <= set(idx) <= set(exp), 'not-called', '%s: checkpoints called for nodes %s, given for %s '
                    '(trained: %s)' % (where, idx, exp, must))
        rec.require(idx == sorted(idx), 'wrong-order', '%s: %s' % (where, idx))
        if cls in (mdp.CheckpointFlow, bimdp.BiCheckpointFlow):
            rec.require(idx == exp, 'not-called', '%s: checkpoints called for nodes %s, given for %s' % (where, idx, exp))
        outs = [probe]
        for m in nodes[:-1]:
            outs.append(m.execute(outs[-1]))
        for c, i in zip(log.calls, idx):
            if c['i'] is not None:
                rec.require(c['i'] == i, 'wrong-node', '%s: checkpoint %d called with node %d' % (where, c['i'], i))
            for j, (ph, started, tr) in enumerate(c['stages']):
                if j > i and was_training[j]:
                    rec.require(ph == 0 and not started and tr, 'too-late', '%s: at the checkpoint of node %d node %d had already '
                                'been trained' % (where, i, j))
                if j < i:
                    rec.require(not was_training[j] or ph >= len(nodes[j]._train_seq) - 1 and (started or not tr), 'too-early', where)
            ph, started, tr = c['stages'][i]
            if was_training[i]:
                total = len(nodes[i]._train_seq)
                rec.require((not tr and ph == total) or (tr and ph == total - 1 and started), 'too-early',
                            '%s: checkpoint of node %d called in phase %d of %d (started %s)' % (where, i, ph, total, started))
                if cls is not mdp.CheckpointFlow and 'ParallelCheckpointFlow' != cls.__name__:
                    rec.require(not tr, 'too-early', '%s: documented to close all phases before the checkpoint' % where)
            # the snapshot already knows all the data
            snap = c['snap']
            y = snap.execute(outs[i])
            rec.event('snapshots_compared')
            rec.require(close(y, refout[i + 1]), 'too-early', '%s: at its checkpoint node %d was not completely trained '
                        '(differs by %g)' % (where, i, C.maxdiff(y, refout[i + 1])))
            # values returned so far by earlier checkpoints are there
            for c2 in log.calls[:log.calls.index(c)]:
                if not single and isinstance(cks[c2['i']], Rec) and cks[c2['i']].ret:
                    rec.require(c['vars'].get('ck%d' % c2['i']) == c2['i'] * 10 + 1, 'values-lost', where)
        vals = {}
        for i in idx:
            r = one.ret if single else (cks[i].ret if isinstance(cks[i], Rec) else None)
            vals.update(r or {})
        for k, v in vals.items():
            rec.require(flow.__dict__.get(k, 'missing') == v, 'values-lost', '%s: flow.%s is %r, expected %r' % (
                where, k, flow.__dict__.get(k, 'missing'), v))
        rec.require(not any(k.startswith('ck') and k not in vals for k in flow.__dict__), 'values-lost', where)
        # saved files
        for i, (fn, closed) in saves.items():
            if i not in idx:
                continue
            with open(fn, 'rb') as fl:
                node = pickle.load(fl)
            rec.event('files_loaded')
            c = log.calls[idx.index(i)]
            ph, started, tr = c['stages'][i]
            if closed:
                rec.require(not node.is_training(), 'file-differs', '%s: stop_training=1 but the saved node %d is still in training' % (where, i))
            else:
                rec.require((node.get_current_train_phase(), getattr(node, "_train_phase_started", None), node.is_training()) == (ph, started, tr),
                            'file-differs', '%s: stage of the saved node %d differs from the one at the checkpoint' % (where, i))
            y = node.execute(outs[i])
            rec.require(close(y, refout[i + 1]), 'file-differs', '%s: saved node %d' % (where, i))
        # training was not altered
        y = flow.execute(probe)
        rec.require(not any(m.is_training() for m in flow), 'training-altered', where + ': still training')
        if isinstance(y, tuple):
            y = y[0]
        rec.require(list(flow) == nodes, 'training-altered', where)
        rec.require(close(y, refout[-1]), 'training-altered', '%s: differs by %g' % (where, C.maxdiff(y, refout[-1])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.case(cls.__name__, [type(m).__name__ for m in nodes], len(X), pre, single, rng.randint(1 << 30))


class Boom(Exception):
    pass


class Fails(NonPar):
    def _s2(self):
        raise Boom('boom')


@CHECK.scenario(quick=150, thorough=1500)
def failures(rng, rec):
    """A failing node or checkpoint: earlier checkpoints ran once, later ones never."""
    cls = [mdp.CheckpointFlow, mdp.parallel.ParallelCheckpointFlow, bimdp.BiCheckpointFlow,
           bimdp.parallel.ParallelCheckpointBiFlow][rng.randint(4)]
    n = int(rng.randint(2, 5))
    pos = int(rng.randint(n))
    nodefails = rng.rand() < 0.5
    nodes = [Fails() if i == pos and nodefails else [mn.PCANode, NonPar, mn.WhiteningNode][rng.randint(3)]() for i in range(n)]
    called = []

    def mk(i):
        def ck(node):
            called.append(i)
            if i == pos and not nodefails:
                raise Boom('boom')
            return {'ck%d' % i: node}
        return ck
    flow = cls(nodes)
    X = C.smooth_mix(rng, 60, 3)
    where = '%s failing %s %d of %d' % (cls.__name__, 'node' if nodefails else 'checkpoint', pos, n)
    try:
        run_flow(rng, flow, cls, X, [mk(i) for i in range(n)], rec)
        rec.require(False, 'error-swallowed', where)
    except Boom:
        pass
    except mdp.FlowException as e:
        rec.require('boom' in str(e), 'error-swallowed', '%s: %s' % (where, e))
    rec.event('checkpoint_calls', len(called))
    # a serial CheckpointFlow leaves the last phase open, so the failure of its
    # closing shows after the checkpoint
    ok = [list(range(pos + (0 if nodefails else 1)))]
    if nodefails:
        ok.append(list(range(pos + 1)))
    rec.require(called in ok, 'wrong-order', '%s: checkpoints called: %s' % (where, called))
    for i in range(pos):
        rec.require(flow.__dict__.get('ck%d' % i) is nodes[i], 'values-lost', where)
    for m in nodes[pos + 1:]:
        rec.require(m.is_training() and not getattr(m, "_train_phase_started", False) and m.get_current_train_phase() == 0, 'too-late', where)
    # wrong number of checkpoints is refused before anything is trained
    fresh = [mn.PCANode() for _ in range(n)]
    try:
        cls(fresh).train(X, [None] * (n + 1))
        rec.require(False, 'count-accepted', where)
    except mdp.FlowException:
        pass
    rec.require(not any(m._train_phase_started for m in fresh), 'count-accepted', where)
    rec.case(cls.__name__, pos, n, nodefails, rng.randint(1 << 30))
