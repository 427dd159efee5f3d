"""P37 inspection and HTML views: what they record is what happened, and nothing else changes."""
import copy
import html.parser
import os
import re
import shutil
import sys
import tempfile
import warnings
import webbrowser
import xml.dom.minidom
import numpy as np
import mdp
import bimdp
from mdp import hinet
from bimdp import BiNode, BiFlow
from bimdp.hinet import BiFlowNode, CloneBiLayer
from harness.core import Check, Skip
from checks.p28 import snap, diff

CHECK = Check('P37', 'A case is one flow (plain, bi-directional with scripted routes, hierarchical) traced during '
              'execution or training, or displayed. Probe nodes log the calls they really get; the records on disk '
              '(order, method, highlighted node, result shape) are compared with that log, results and state with an '
              'untraced twin, and an audit hook watches every file that is written. Distinct by structure, options '
              'and messages.')
CHECK.expect_events(traced=80, records=400, twin_states=100, files_read=300, displays=40, failures=15, trainings=25,
                    writes_watched=300, browser=20, slideshows=20, values_read=300, messages_read=40)

LOG = []
ON = [False]
FAILED = set()


class Boom(Exception):
    pass


class Probe(mdp.Node):
    """Affine node that tells what is really called.

    Inside a clone layer it keeps no state during execution: tracing works on a copy of the first clone.
    """
    in_clone = False

    def __init__(self, name, d, phases=0, fail=None, d_out=None):
        self.name, self.phases, self.fail = name, phases, fail
        self.seen = []
        self.calls = 0
        super(Probe, self).__init__(input_dim=d, output_dim=d_out or d, dtype='d')

    def is_trainable(self):
        return self.phases > 0

    def is_invertible(self):
        return False

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def mark(self, what, shape, x=None, y=None, trail=None):
        if ON[0]:
            LOG.append((self.name, what, shape, None if x is None or not x.size else float(x.flat[0]),
                        None if y is None or not y.size else float(y.flat[0]), trail))
        self.calls += not self.in_clone
        if self.fail is not None and what == self.fail[0]:
            if self.name not in FAILED:
                if self.fail[1]:
                    FAILED.add(self.name)
                raise Boom('probe %s' % self.name)

    def _execute(self, x):
        y = x[:, :1].repeat(self.output_dim, axis=1) * 2 + 1 if self.output_dim != self.input_dim else x * 2 + 1
        self.mark('execute', y.shape, x, y)
        return y

    def _train(self, x, *args):
        self.mark('train', None, x)
        self.seen.append(float(np.sum(x)))
        self.seen.extend(float(np.sum(a)) for a in args)

    def _stop_training(self):
        self.mark('stop_training', None)
        self.seen.append(float(self.get_current_train_phase()))


class BiProbe(BiNode):
    in_clone = False

    def __init__(self, name, d, phases=0, script=(), fail=None, clone=None):
        self.name, self.phases, self.script, self.fail = name, phases, list(script), fail
        self.clone = clone
        self.i = 0
        self.calls = 0
        self.seen = []
        super(BiProbe, self).__init__(node_id=name, input_dim=d, output_dim=d, dtype='d')

    def is_trainable(self):
        return self.phases > 0

    def is_invertible(self):
        return False

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    mark = Probe.mark

    def _execute(self, x, add=0, trail=None):
        y = x * 3 + add
        self.mark('execute', y.shape, x, y, None if trail is None else (str(trail), str(trail + [self.name])))
        t = self.script[self.i] if self.i < len(self.script) else None
        self.i += not self.in_clone
        out = {'visits': [self.name], 'arr_' + self.name: y[:1].copy()}
        if trail is not None:               # the list in the message is changed in place
            trail.append(self.name)
            out['trail'] = trail
        if self.clone is not None:
            out['use_copies'] = self.clone
        return (y, out) if t is None else (y, out, t)

    def _train(self, x, add=0):
        self.mark('train', None, x)
        self.seen.append(float(np.sum(x) + add))

    def _stop_training(self, stop=0):
        self.mark('stop_training', None)
        self.seen.append(float(stop))

    def _bi_reset(self):
        self.i = 0


# ---------------------------------------------------------------- monitors

WATCH = {'on': False, 'writes': []}
BROWSER = {'seen': []}
_installed = []


def _audit(event, args):
    if not WATCH['on']:
        return
    if event == 'open':
        path, mode, flags = args
        w = (flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) or \
            (mode is not None and any(c in mode for c in 'wax+'))
        if w and isinstance(path, (str, bytes)):
            WATCH['writes'].append(os.path.abspath(os.fsdecode(path)))
    elif event in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink'):
        if isinstance(args[0], (str, bytes)):
            WATCH['writes'].append(os.path.abspath(os.fsdecode(args[0])))


def _open(url, *a, **k):
    on, WATCH['on'] = WATCH['on'], False
    try:
        with open(url) as f:
            BROWSER['seen'].append((url, f.read()))
    except Exception as e:
        BROWSER['seen'].append((url, repr(e)))
    WATCH['on'] = on
    return True


class Watch(object):
    """Scratch folder, write audit and a stand-in browser around one call."""

    def __init__(self, rec, browser=True):
        self.rec = rec

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_audit)
            _installed.append(1)
        self.base = tempfile.mkdtemp(prefix='p37_')
        self.tmp = os.path.join(self.base, 'tmp')
        os.mkdir(self.tmp)
        self.old = tempfile.tempdir
        tempfile.tempdir = self.tmp
        self.web = (webbrowser.open, webbrowser.get)
        webbrowser.open = _open
        BROWSER['seen'] = []
        WATCH['writes'] = []
        del LOG[:]
        ON[0] = True
        WATCH['on'] = True
        return self

    def __exit__(self, *exc):
        WATCH['on'] = False
        ON[0] = False
        tempfile.tempdir = self.old
        webbrowser.open, webbrowser.get = self.web
        if exc[0] is None:
            self.check(self.rec)
        shutil.rmtree(self.base, ignore_errors=True)

    allowed = None

    def check(self, rec):
        ok = [self.allowed] if isinstance(self.allowed, str) else (self.allowed or [self.tmp])
        for w in WATCH['writes']:
            if w.startswith(('/dev/', '/proc/')):
                continue
            rec.require(any(w == o or w.startswith(o.rstrip('/') + '/') for o in ok), 'written-elsewhere',
                        lambda: '%s written, requested %s' % (w, ok))
            rec.event('writes_watched')


def all_nodes(node, out=None, depth=0):
    out = [] if out is None else out
    if hasattr(node, 'flow'):
        out.append(node)
        for n in (node.flow if not isinstance(node.flow, mdp.Flow) else node.flow.flow):
            all_nodes(n, out)
    elif isinstance(node, hinet.Layer):
        out.append(node)
        for n in node.nodes:
            all_nodes(n, out)
        if isinstance(node, hinet.CloneLayer) and node.node is not None:
            all_nodes(node.node, out)
    else:
        out.append(node)
    return out


def leaves(flow):
    """[(leaf, multiplicity)] in display order; a clone layer shows its node once."""
    out = []

    def go(n, m):
        if hasattr(n, 'flow'):
            for k in n.flow:
                go(k, m)
        elif isinstance(n, hinet.CloneLayer):
            go(n.nodes[0], m * len(n.nodes))
        elif isinstance(n, hinet.Layer):
            for k in n.nodes:
                go(k, m)
        else:
            out.append((n, m))
    for n in flow:
        go(n, 1)
    return out


HIDDEN = ('execute', 'train', 'stop_training', '__getstate__', 'inverse', '_execute', '_train', '_stop_training',
          '_stop_training_hook', '_set_use_copies')


def no_residue(rec, flow, key='residue'):
    for n in [flow] + [k for m in flow for k in all_nodes(m)]:
        left = [a for a in vars(n) if a in HIDDEN or a.startswith('_insp') or a.startswith('_snapshot')]
        rec.require(not left, key, lambda: '%s keeps %r after the inspection' % (type(n).__name__, left))


def classes(flow):
    cs = set()
    for n in [flow] + [k for m in flow for k in all_nodes(m)]:
        cs.update(type(n).__mro__[:-1])
    return dict((c, dict((k, id(v)) for k, v in vars(c).items() if not k.startswith('__'))) for c in cs)


def twin_equal(rec, a, b, key, tol=0.):
    d = diff(snap(a), snap(b), tol)
    rec.require(d is None, key, lambda: 'state differs from the untraced run at %s' % d)
    rec.event('twin_states')


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (tuple, list)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


# ---------------------------------------------------------------- reading the records back

class Tags(html.parser.HTMLParser):
    def __init__(self):
        super(Tags, self).__init__()
        self.counts = {}
        self.options = []
        self.text = []

    def handle_starttag(self, tag, attrs):
        self.counts[tag] = self.counts.get(tag, 0) + 1
        if tag == 'option':
            self.options.append(dict(attrs).get('value'))

    def handle_endtag(self, tag):
        self.counts['/' + tag] = self.counts.get('/' + tag, 0) + 1

    def handle_data(self, d):
        self.text.append(d)


def read_page(rec, path):
    rec.require(os.path.isfile(path), 'missing-file', path)
    with open(path) as f:
        s = f.read()
    t = Tags()
    t.feed(s)
    st = s.strip()
    rec.require(st.startswith('<html>') and st.endswith('</html>') and t.counts.get('body') == 1 and
                t.counts.get('/body') == 1, 'incomplete-page', lambda: '%s: %d characters, ends with %r' % (path, len(s), s[-40:]))
    for m in re.findall(r'@import url\("([^"]*)"\)', s):
        rec.require(os.path.isfile(os.path.join(os.path.dirname(path), m)), 'dangling', '%s refers to %s' % (path, m))
    rec.event('files_read')
    return s, t


def page_body(s):
    return s[s.index('<body>') + 6:s.rindex('</body>')].strip()


def show_records(rec, filename, n_expected_dir=None):
    """Slides of a slideshow page: [(method, node id, result shape, text)]."""
    s, t = read_page(rec, filename)
    folder = os.path.dirname(filename)
    out = []
    ids = re.search(r'var slide_node_ids = (\[.*?\]);', s, re.S)
    rec.require(ids is not None, 'no-node-ids', 'slideshow has no node ids')
    ids = re.findall(r"'([^']*)'|(None)", ids.group(1))
    ids = [a or None for a, b in ids]
    rec.require(len(set(t.options)) == len(t.options) and len(t.options) > 0, 'slides', lambda: t.options)
    for i, o in enumerate(t.options):
        p, _ = read_page(rec, os.path.join(folder, o))
        m = re.search(r'<h3>(\w+) arguments</h3>', p)
        shape = None
        if m:
            tail = p[p.index('<h3>%s result</h3>' % m.group(1)):]
            sh = re.search(r'array with shape \(([^)]*)\)', tail)
            shape = tuple(int(v) for v in sh.group(1).split(',') if v.strip()) if sh else None
        cur = re.findall(r'<table class="\s*current_node node clickable" id="([^"]*)">', p)
        out.append((m.group(1) if m else 'error', ids[i] if i < len(ids) else None, shape, p, cur))
    return out


def expected_records(flow, log):
    names = dict((n.name, (i, m)) for i, (n, m) in enumerate(leaves(flow)) if hasattr(n, 'name'))
    seen, out = {}, []
    for name, what, shape, x0, y0, trail in log:
        i, m = names[name]
        k = seen.get((name, what), 0)
        seen[(name, what)] = k + 1
        if k % m == 0:
            out.append((what, 'clickable_node_%d' % i, shape, x0, y0, trail))
    return out


def compare_records(rec, got, want, key='records'):
    rec.require([(g[0], g[1]) for g in got] == [(w[0], w[1]) for w in want], key,
                lambda: 'recorded %s, happened %s' % ([(g[0], g[1]) for g in got][:30], [(w[0], w[1]) for w in want][:30]))
    for g, w in zip(got, want):
        if w[0] == 'execute':
            rec.require(g[2] == w[2], key + '-result', lambda: 'result shape %s recorded, was %s' % (g[2], w[2]))
        args, res = g[3].split('<h3>%s arguments</h3>' % w[0])[1].split('<h3>%s result</h3>' % w[0])
        for part, v, name in ((args, w[3], 'argument'), (res, w[4], 'result')):
            if v is None:
                continue
            num = re.search(r'array with shape \([^)]*\)<br>\n\[+\s*([^\s\]<]+)', part)
            rec.require(num is not None and abs(float(num.group(1)) - v) <= 1e-5 * max(1, abs(v)), key + '-values',
                        lambda: '%s of %s shown as %s, was %r' % (name, g[:2], num and num.group(1), v))
            rec.event('values_read')
        if w[5] is not None:
            for part, v, name in ((args, w[5][0], 'argument'), (res, w[5][1], 'result')):
                m = re.search(r"'trail'</span>: (\[[^]]*\])", part)
                rec.require(m is not None and m.group(1) == v, key + '-message', lambda: 'message %s of %s shown as %s, was %s'
                            % (name, g[:2], m and m.group(1), v))
                rec.event('messages_read')
        rec.require(g[4] == [g[1]], key + '-highlight', lambda: 'slide highlights %r, active node %r' % (g[4], g[1]))
        rec.event('records')


# ---------------------------------------------------------------- structures

def in_clone(node):
    for k in all_nodes(node):
        if hasattr(k, 'in_clone'):
            k.in_clone = True
    return node


def gen_plain(rng, d, depth=0, names=None, trainable=False):
    """A node of input dimension d -> output dimension d."""
    names = names if names is not None else [0]

    def leaf(dd):
        names[0] += 1
        return Probe('p%d' % names[0], dd, phases=int(rng.choice([0, 1, 2])) if trainable else 0)
    kind = rng.randint(6) if depth < 2 else 0
    if kind <= 1 or d % 2:
        return leaf(d)
    if kind == 2:
        return hinet.FlowNode(mdp.Flow([gen_plain(rng, d, depth + 1, names, trainable) for _ in range(rng.randint(1, 4))]))
    if kind == 3:
        return hinet.Layer([gen_plain(rng, d // 2, depth + 1, names, trainable) for _ in range(2)])
    if kind == 4:
        return hinet.CloneLayer(in_clone(gen_plain(rng, d // 2, depth + 1, names, trainable)), 2)
    sw = hinet.Switchboard(input_dim=d, connections=rng.permutation(d))
    return hinet.FlowNode(mdp.Flow([leaf(d), sw]))


def gen_bi(rng, d, names, depth=0, phases=False, ids=None):
    def leaf(dd, script=(), **kw):
        names[0] += 1
        return BiProbe('b%d' % names[0], dd, script=script, phases=int(rng.choice([0, 1, 2])) if phases else 0, **kw)
    kind = rng.randint(6) if depth < 2 else 0
    if kind <= 2 or d % 2:
        return leaf(d)
    if kind == 3:
        return BiFlowNode(BiFlow([gen_bi(rng, d, names, depth + 1, phases) for _ in range(rng.randint(1, 3))]))
    if kind == 4:
        names[0] += 1
        return CloneBiLayer(in_clone(leaf(d // 2, clone=[None, True, False][rng.randint(3)] if not phases else None)), n_nodes=2,
                            use_copies=bool(rng.randint(2)) and not phases, node_id='c%d' % names[0])
    return bimdp.hinet.BiSwitchboard(input_dim=d, connections=rng.permutation(d))


def add_routes(rng, flow):
    """Jumps between the top-level probes, never endless."""
    tops = [i for i, n in enumerate(flow) if isinstance(n, BiProbe)]
    for i in tops:
        k = rng.randint(4)
        if k == 0 and len(tops) > 1:
            flow[i].script = [flow[tops[rng.randint(len(tops))]].name]
        elif k == 1:
            flow[i].script = [int(rng.randint(0, i + 1)) - i]
        elif k == 2 and rng.randint(3) == 0:
            flow[i].script = ['exit']


# ---------------------------------------------------------------- execution

@CHECK.scenario(quick=40, thorough=500)
def execution(rng, rec):
    d = int(rng.choice([2, 4, 8]))
    flow = mdp.Flow([gen_plain(rng, d, names=None if i is None else NAMES(i)) for i in range(rng.randint(1, 4))])
    run_execution(rng, rec, flow, d)


def NAMES(i):
    return [100 * i]


def run_execution(rng, rec, flow, d, msg=None, target=None, tracer=None):
    bi = isinstance(flow, BiFlow)
    twin = flow.copy()
    x = rng.randn(rng.randint(1, 8), d)
    kw = {}
    if bi and msg is not None:
        kw['msg'] = msg
    if bi and target is not None:
        kw['target'] = target
    kw2 = copy.deepcopy(kw)
    x0 = x.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mdp.numx_rand.seed(5)
        want = twin.execute(x.copy(), **dict((k2 if k2 == 'x' else k2 + '_iterable', v2) for k2, v2 in kw2.items()))
        before = classes(flow)
        with Watch(rec) as w:
            named = [None, 'trial', 'my run'][rng.randint(3)]
            path = [None, os.path.join(w.base, 'out'), os.path.join(w.base, 'a', 'b')][rng.randint(3)]
            if path and rng.randint(2):
                os.makedirs(path)
            w.allowed = [w.tmp] if path is None else [path, os.path.dirname(path)] if 'a' in path.split('/')[-2:] else [path]
            browse = bool(rng.randint(2))
            mdp.numx_rand.seed(5)
            fn, got = bimdp.show_execution(flow, x, path=path, name=named, open_browser=browse,
                                           show_size=bool(rng.randint(2)), debug=bool(rng.randint(2)), **kw)
            log = list(LOG)
            ON[0] = False
            if path is not None:
                rec.require(os.path.dirname(os.path.abspath(fn)) == os.path.abspath(path), 'wrong-place', lambda: fn)
            if browse:
                rec.require(len(BROWSER['seen']) == 1 and os.path.abspath(BROWSER['seen'][0][0]) == os.path.abspath(fn),
                            'browser', lambda: [b[0] for b in BROWSER['seen']])
                with open(fn) as f:
                    rec.require(BROWSER['seen'][0][1] == f.read(), 'browser-incomplete', lambda: 'the browser got %d of %d '
                                'characters' % (len(BROWSER['seen'][0][1]), os.path.getsize(fn)))
                rec.event('browser')
            else:
                rec.require(not BROWSER['seen'], 'browser', 'opened although not asked to')
            recs = show_records(rec, fn)
            rec.require(same(got, want), 'result', lambda: 'traced result differs: %r / %r' % (got, want))
            rec.require(np.array_equal(x, x0), 'argument-changed', 'x changed')
            no_residue(rec, flow)
            rec.require(classes(flow) == before, 'class-changed', 'a class was changed')
            twin_equal(rec, flow, twin, 'execution-state')
            if all(hasattr(n, 'name') for n, m in leaves(flow)):
                compare_records(rec, recs, expected_records(flow, log))
            else:
                exp = expected_records(flow, log)
                probes = set(e[1] for e in exp)
                compare_records(rec, [r for r in recs if r[1] in probes], exp)
    rec.event('traced')
    rec.case(('exec', type(flow).__name__, str([type(n).__name__ for n in flow]), d, named, path is None,
              len(recs), tuple(r[1] for r in recs[:8])))


@CHECK.scenario(quick=40, thorough=500)
def bi_execution(rng, rec):
    d = int(rng.choice([2, 4, 8]))
    names = [0]
    flow = BiFlow([gen_bi(rng, d, names) for _ in range(rng.randint(1, 5))])
    add_routes(rng, flow)
    msg = None
    tops = [n for n in flow if isinstance(n, BiProbe)]
    if rng.randint(2):
        msg = {'note': 'text', 'value': np.arange(3.), 'trail': ['start']}
        if tops:
            msg[tops[0].name + '->add'] = 2
    target = None
    if tops and rng.randint(3) == 0:
        target = tops[rng.randint(len(tops))].name
    flow2 = flow
    rounds = 1 + rng.randint(2)
    for _ in range(rounds):
        run_execution(rng, rec, flow2, d, msg=copy.deepcopy(msg), target=target)


REAL = [lambda d: mdp.nodes.PCANode(output_dim=2), lambda d: mdp.nodes.SFANode(output_dim=2),
        lambda d: mdp.nodes.PolynomialExpansionNode(2), lambda d: mdp.nodes.IdentityNode(),
        lambda d: mdp.nodes.WhiteningNode(), lambda d: mdp.nodes.SFA2Node(output_dim=2), lambda d: mdp.nodes.CutoffNode(-1, 1),
        lambda d: mdp.nodes.NormalNoiseNode(noise_args=(0, .1)), lambda d: mdp.nodes.HistogramNode(),
        lambda d: mdp.nodes.TimeFramesNode(2), lambda d: mdp.nodes.EtaComputerNode(), lambda d: bimdp.nodes.SFABiNode(output_dim=2),
        lambda d: mdp.nodes.AdaptiveCutoffNode(.1, .1)]


def real_flow(rng, d, bi=False):
    nodes = []
    for i in range(rng.randint(1, 4)):
        n = REAL[rng.randint(len(REAL))](d)
        if isinstance(n, BiNode) and not bi:
            n = mdp.nodes.SFANode(output_dim=2)
        if rng.randint(4) == 0:
            n = hinet.FlowNode(mdp.Flow([n]))
        nodes.append(n)
    return (BiFlow if bi else mdp.Flow)(nodes)


@CHECK.scenario(quick=24, thorough=250)
def ordinary_nodes(rng, rec):
    """Flows of the library's own nodes: one record per node, in order, and nothing changes."""
    d = 4
    bi = bool(rng.randint(2))
    flow = real_flow(rng, d, bi)
    X = rng.randn(200, d).cumsum(axis=0) * .1 + rng.randn(200, d)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        flow.train(X)
        twin = flow.copy()
        x = rng.randn(12, d)
        mdp.numx_rand.seed(9)
        want = twin.execute(x)
        before = classes(flow)
        with Watch(rec) as w:
            mdp.numx_rand.seed(9)
            w.allowed = path = os.path.join(w.base, 'o')
            fn, got = bimdp.show_execution(flow, x, path=path, open_browser=False)
            rec.require(same(got, want), 'result', 'traced result differs')
            recs = show_records(rec, fn)
            no_residue(rec, flow)
            rec.require(classes(flow) == before, 'class-changed', 'a class was changed')
            twin_equal(rec, flow, twin, 'execution-state')
            n = len(leaves(flow))
            # the last training phase of a node may still be open, its first execution closes it
            for r, s in zip(recs, recs[1:]):
                rec.require(r[0] == 'execute' or (r[0], s[0], s[1]) == ('stop_training', 'execute', r[1]), 'records',
                            lambda: [q[:2] for q in recs])
            recs = [r for r in recs if r[0] == 'execute']
            rec.require([r[1] for r in recs] == ['clickable_node_%d' % i for i in range(n)], 'records',
                        lambda: [(r[0], r[1]) for r in recs])
            rec.event('records', n)
            y = x
            for r, node in zip(recs, [k for k, m in leaves(flow)]):
                if isinstance(node, mdp.nodes.NoiseNode):
                    break
                y = node.execute(y)
                y = y[0] if isinstance(y, tuple) else y
                rec.require(r[2] == y.shape, 'records-result', lambda: (r[2], y.shape))
    rec.event('traced')
    rec.case(('real', bi, tuple(type(k).__name__ for k, m in leaves(flow))))


@CHECK.scenario(quick=20, thorough=200)
def shared_nodes(rng, rec):
    """The same node object at several places of a flow."""
    d = 4
    p = Probe('p1', d)
    h = Probe('p2', d // 2)
    kind = rng.randint(3)
    if kind == 0:
        nodes = [p, Probe('p3', d), p]
    elif kind == 1:
        nodes = [hinet.Layer([h, h]), p]
    else:
        nodes = [hinet.FlowNode(mdp.Flow([p, Probe('p3', d)])), hinet.SameInputLayer([h2 for h2 in [p, p]])]
    bi = bool(rng.randint(2))
    flow = (BiFlow if bi else mdp.Flow)(nodes)
    twin = flow.copy()
    x = rng.randn(3, d)
    want = twin.execute(x)
    with Watch(rec) as w:
        w.allowed = path = os.path.join(w.base, 'o')
        fn, got = bimdp.show_execution(flow, x, path=path, open_browser=False)
        log = list(LOG)
        ON[0] = False
        rec.require(same(got, want), 'result', 'traced result differs')
        recs = show_records(rec, fn)
        rec.require([r[0] for r in recs] == [l[1] for l in log], 'records', lambda: ([r[:3] for r in recs], log))
        no_residue(rec, flow)
        twin_equal(rec, flow, twin, 'execution-state')
    rec.event('traced')
    rec.case(('shared', kind, bi))


@CHECK.scenario(quick=24, thorough=200)
def failing_execution(rng, rec):
    """An exception passes through (or is documented in debug mode) and leaves no trace in the flow."""
    d = 4
    bi = bool(rng.randint(2))
    if bi:
        nodes = [BiProbe('b%d' % i, d) for i in range(rng.randint(1, 5))]
    else:
        nodes = [Probe('p%d' % i, d) for i in range(rng.randint(1, 5))]
        if rng.randint(2):
            nodes.append(hinet.CloneLayer(in_clone(Probe('q', d // 2)), 2))
    k = rng.randint(len(nodes))
    (nodes[k] if not isinstance(nodes[k], hinet.Layer) else nodes[k].node).fail = ('execute', True)
    flow = (BiFlow if bi else mdp.Flow)(nodes)
    twin = flow.copy()
    x = rng.randn(3, d)
    exc = None
    FAILED.clear()
    try:
        twin.execute(x)
    except Exception as e:
        exc = e
    FAILED.clear()
    debug = bool(rng.randint(2))
    cls = classes(flow)
    with Watch(rec) as w, open(os.devnull, 'w') as null:
        w.allowed = path = os.path.join(w.base, 'o')
        err, out = sys.stderr, sys.stdout
        sys.stderr = sys.stdout = null
        got = fn = None
        try:
            fn, res = bimdp.show_execution(flow, x, path=path, open_browser=False, debug=debug)
        except Exception as e:
            got = e
        finally:
            sys.stderr, sys.stdout = err, out
        log = list(LOG)
        ON[0] = False
        if debug:
            rec.require(got is None, 'debug-failed', lambda: 'debug mode raised %s: %s' % (type(got).__name__, got))
            recs = show_records(rec, fn)
            done = [l for l in log[:-1]]
            rec.require([r[0] for r in recs] == [l[1] for l in done] + ['error'], 'debug-records',
                        lambda: ([r[0] for r in recs], log))
            rec.require('Boom' in recs[-1][3] and 'probe' in recs[-1][3], 'debug-error-slide', lambda: recs[-1][3][-300:])
        else:
            rec.require(type(got) is type(exc), 'exception', lambda: '%r instead of %r' % (got, exc))
        no_residue(rec, flow)
        rec.require(classes(flow) == cls, 'class-changed', 'a class was changed')
        twin_equal(rec, flow, twin, 'failure-state')
        # the flow works afterwards
        rec.require(same(flow.execute(x), twin.execute(x)), 'result', 'results differ after a failed trace')
    rec.event('failures')
    rec.case(('fail', bi, k, len(nodes), debug))


# ---------------------------------------------------------------- training

class Once(object):
    """A data source that can be iterated any number of times and counts it."""
    def __init__(self, items):
        self.items = items
        self.n = 0

    def __iter__(self):
        self.n += 1
        return iter(self.items)


def quiet(f, *a, **k):
    err, out = sys.stderr, sys.stdout
    with open(os.devnull, 'w') as null:
        sys.stderr = sys.stdout = null
        try:
            return f(*a, **k)
        finally:
            sys.stderr, sys.stdout = err, out


@CHECK.scenario(quick=40, thorough=400)
def training(rng, rec):
    """Train and inspect in one call: same trained flow as plain training; records of every phase in order."""
    d = int(rng.choice([2, 4]))
    bi = bool(rng.randint(2))
    names = [0]
    many = rng.randint(5) == 0
    if many:                                  # more than ten phases: order by number, not by name
        nodes = [(BiProbe if bi else Probe)('p%d' % i, d, phases=4) for i in range(3)]
    elif bi:
        nodes = [gen_bi(rng, d, names, phases=True) for _ in range(rng.randint(1, 4))]
    else:
        nodes = [gen_plain(rng, d, names=names, trainable=True) for _ in range(rng.randint(1, 4))]
    flow = (BiFlow if bi else mdp.Flow)(nodes)
    if not any(n.is_trainable() for n in flow):
        raise Skip('nothing to train')
    twin = flow.copy()
    shape = rng.randint(4)
    n = len(flow)
    chunks = [rng.randn(rng.randint(2, 5), d) for _ in range(rng.randint(1, 4))]
    phases = [k.get_remaining_train_phase() if k.is_trainable() else 0 for k in flow]

    def source():
        if shape == 0:
            return chunks[0].copy()
        if shape == 1:
            return [[c.copy() for c in chunks] for _ in range(n)]
        if shape == 2:
            return [Once([c.copy() for c in chunks]) for _ in range(n)]
        # iterators are enough for single-phase nodes, None for nodes that need no data
        return [iter([c.copy() for c in chunks]) if p == 1 else [c.copy() for c in chunks] if p else None for p in phases]
    msgs = stops = None
    if bi and shape in (1, 2) and rng.randint(2):
        msgs = [[{'add': float(j)} for j in range(len(chunks))] for _ in range(n)]
    elif bi and shape == 0 and rng.randint(2):
        msgs = {'add': 3.}
    if bi and rng.randint(2):
        stops = [{k.name + '->stop': float(i)} if isinstance(k, BiProbe) else None for i, k in enumerate(flow)]
    kw, kw2 = {}, {}
    if msgs is not None:
        kw['msg_iterables'] = msgs
        kw2['msg_iterables'] = copy.deepcopy(msgs)
    if stops is not None:
        kw['stop_messages'] = stops
        kw2['stop_messages'] = copy.deepcopy(stops)
    mdp.numx_rand.seed(3)
    twin.train(source(), **kw2)
    data = source()
    kept = list(data) if isinstance(data, list) else data
    before = classes(flow)
    with Watch(rec) as w:
        path = [None, os.path.join(w.base, 'o')][rng.randint(2)]
        w.allowed = [path or w.tmp]
        browse = bool(rng.randint(2))
        mdp.numx_rand.seed(3)
        fn = quiet(bimdp.show_training, flow, data, path=path, open_browser=browse, **kw)
        log = list(LOG)
        ON[0] = False
        twin_equal(rec, flow, twin, 'training-state')
        no_residue(rec, flow)
        rec.require(classes(flow) == before, 'class-changed', 'a class was changed')
        if isinstance(kept, list):
            rec.require(len(data) == n and all(a is b for a, b in zip(kept, data)), 'argument-changed',
                        'the list of data iterables was changed')
        x = rng.randn(3, d)
        rec.require(same(flow.execute(x), twin.execute(x)), 'result', 'inspected training gives another flow')
        if browse:
            with open(fn) as f:
                rec.require(len(BROWSER['seen']) == 1 and BROWSER['seen'][0][1] == f.read(), 'browser-incomplete',
                            'page changed after it was opened')
            rec.event('browser')
        recs = show_records(rec, fn)
        # the calls of the real training come first in the log; the recorded ones are the rest
        n_real = sum(1 for l in log) - len(recs)
        rec.require(n_real >= 0, 'records', lambda: 'more records than calls: %s' % [r[:2] for r in recs])
        if all(m == 1 for k, m in leaves(flow)):
            exp = expected_records(flow, log)[n_real:] if all(hasattr(k, 'name') for k, m in leaves(flow)) else None
            if exp is not None:
                compare_records(rec, recs, exp, 'training-records')
        # phases appear in training order, each with exactly one stop of the node being trained
        stops_seen = [r[1] for r in recs if r[0] == 'stop_training']
        lv = leaves(flow)
        want = []
        for top in flow:
            sub = [(i, k) for i, (k, m) in enumerate(lv) if any(k is q for q in all_nodes(top))]
            ph = max([k.phases for i, k in sub if hasattr(k, 'phases')] or [0])
            want.append((top, sub, ph))
        if not any(isinstance(q, (hinet.FlowNode, BiFlowNode, hinet.Layer)) for q in flow):
            exp = []
            for i, (k, m) in enumerate(lv):
                exp += ['clickable_node_%d' % i] * getattr(k, 'phases', 0)
            rec.require(stops_seen == exp, 'training-order', lambda: 'phases recorded %s, trained %s' % (stops_seen, exp))
    rec.event('trainings')
    rec.event('traced')
    rec.case(('train', bi, d, shape, many, tuple(r[:2] for r in recs[:6]), len(recs)))


@CHECK.scenario(quick=12, thorough=100)
def supervised(rng, rec):
    """Training data with arguments (labels) work under inspection as they do without."""
    d = 4
    X = rng.randn(60, d)
    lab = rng.randint(2, size=60)
    X[lab == 1] += 2
    kind = rng.randint(3)
    mk = [lambda: [mdp.nodes.PCANode(output_dim=3), mdp.nodes.FDANode(output_dim=1)],
          lambda: [Probe('p1', d, phases=1)],
          lambda: [mdp.nodes.PCANode(output_dim=3), mdp.nodes.GaussianClassifier()]][kind]
    flow, twin = mdp.Flow(mk()), mdp.Flow(mk())

    def data():
        return [None if not k.is_trainable() else [X[:30], X[30:]] if isinstance(k, mdp.nodes.PCANode) else
                [(X[:30], lab[:30]), (X[30:], lab[30:])] for k in flow]
    twin.train(data())
    with Watch(rec) as w:
        w.allowed = path = os.path.join(w.base, 'o')
        fn = quiet(bimdp.show_training, flow, data(), path=path, open_browser=False)
        ON[0] = False
        recs = show_records(rec, fn)
        no_residue(rec, flow)
        twin_equal(rec, flow, twin, 'training-state', 1e-12)
        rec.require(sum(r[0] == 'stop_training' for r in recs) == [3, 1, 2][kind], 'records', lambda: [r[:2] for r in recs])
        rec.event('records', len(recs))
    rec.event('trainings')
    rec.case(('supervised', kind))


@CHECK.scenario(quick=16, thorough=150)
def failing_training(rng, rec):
    d = 3
    FAILED.clear()
    bi = bool(rng.randint(2))
    nodes = [(BiProbe if bi else Probe)('p%d' % i, d, phases=1) for i in range(rng.randint(1, 4))]
    k = rng.randint(len(nodes))
    nodes[k].fail = (str(rng.choice(['train', 'stop_training'])), False)
    flow = (BiFlow if bi else mdp.Flow)(nodes)
    twin = flow.copy()
    X = [rng.randn(4, d) for _ in range(2)]
    exc = None
    try:
        twin.train([X] * len(flow))
    except Exception as e:
        exc = e
    debug = bool(rng.randint(2))
    with Watch(rec) as w:
        w.allowed = path = os.path.join(w.base, 'o')
        got = fn = None
        try:
            fn = quiet(bimdp.show_training, flow, [X] * len(flow), path=path, open_browser=False, debug=debug)
        except Exception as e:
            got = e
        ON[0] = False
        if debug:
            rec.require(got is None, 'debug-failed', lambda: 'debug mode raised %s: %s' % (type(got).__name__, got))
            recs = show_records(rec, fn)
            rec.require(recs[-1][0] == 'error' and 'Boom' in recs[-1][3], 'debug-error-slide', lambda: [r[:2] for r in recs])
        else:
            rec.require(type(got) is type(exc), 'exception', lambda: '%r instead of %r' % (got, exc))
        no_residue(rec, flow)
        if debug and bi:
            twin._bi_reset()
        twin_equal(rec, flow, twin, 'failure-state')
    rec.event('failures')
    rec.case(('failtrain', bi, k, len(nodes), debug, nodes[k].fail[0]))


@CHECK.scenario(quick=10, thorough=60)
def empty_traces(rng, rec):
    """Nothing to train means no slides: refused with the documented exception."""
    d = 3
    bi = bool(rng.randint(2))
    flow = (BiFlow if bi else mdp.Flow)([(BiProbe if bi else Probe)('p%d' % i, d) for i in range(rng.randint(1, 3))])
    E = bimdp.EmptyTraceException
    with Watch(rec) as w:
        w.allowed = path = os.path.join(w.base, 'o')
        got = None
        try:
            quiet(bimdp.show_training, flow, rng.randn(4, d), path=path, open_browser=False)
        except Exception as e:
            got = e
        rec.require(isinstance(got, E), 'empty-trace', lambda: repr(got))
        no_residue(rec, flow)
    rec.event('failures')
    rec.case(('empty', bi, len(flow)))


@CHECK.scenario(quick=12, thorough=100)
def separate_steps(rng, rec):
    """prepare / train / remove / inspect by hand, with pickled snapshots that stay ordinary flows."""
    d = 3
    bi = bool(rng.randint(2))
    flow = (BiFlow if bi else mdp.Flow)([(BiProbe if bi else Probe)('p%d' % i, d, phases=int(rng.randint(0, 3)))
                                         for i in range(rng.randint(1, 4))])
    total = sum(n.phases for n in flow)
    if not total:
        raise Skip('nothing to train')
    twin = flow.copy()
    X = [rng.randn(4, d) for _ in range(2)]
    twin.train([X] * len(flow))
    I = bimdp
    with Watch(rec) as w:
        w.allowed = path = os.path.join(w.base, 'o')
        os.mkdir(path)
        I.prepare_training_inspection(flow=flow, path=path)
        flow.train([X] * len(flow))
        snaps = sorted(f for f in os.listdir(path) if f.startswith('snapshot'))
        rec.require(len(snaps) == total, 'snapshots', lambda: '%r for %d phases' % (snaps, total))
        I.remove_inspection_residues(flow)
        I.remove_inspection_residues(flow)
        no_residue(rec, flow)
        twin_equal(rec, flow, twin, 'training-state')
        del LOG[:]
        page = quiet(I.inspect_training, path, [X[0]] * len(flow))
        log = list(LOG)
        ON[0] = False
        fn = os.path.join(path, 'page.html')
        with open(fn, 'w') as f:
            f.write('<html>\n<body>\n' + page + '</body>\n</html>')
        compare_records(rec, show_records(rec, fn), expected_records(flow, log), 'training-records')
        import pickle
        for s in snaps:
            with open(os.path.join(path, s), 'rb') as f:
                no_residue(rec, pickle.load(f), 'snapshot-residue')
    rec.event('trainings')
    rec.case(('steps', bi, tuple(n.phases for n in flow)))


# ---------------------------------------------------------------- display

def display_flow(rng):
    d = 8
    bi = bool(rng.randint(2))
    names = [0]
    if bi:
        nodes = [gen_bi(rng, d, names) for _ in range(rng.randint(1, 4))]
        if rng.randint(2):
            nodes.append(CloneBiLayer(BiProbe('cl', 4), n_nodes=2, use_copies=bool(rng.randint(2))))
        if rng.randint(2):
            nodes.append(bimdp.nodes.SenderBiNode(node_id='snd', recipient_id='b1'))
        if rng.randint(2):
            nodes.append(gen_plain(rng, d, names=[50]))
        return bi, BiFlow(nodes)
    nodes = [gen_plain(rng, d, names=names) for _ in range(rng.randint(1, 4))]
    return bi, mdp.Flow(nodes)


@CHECK.scenario(quick=50, thorough=500)
def display(rng, rec):
    if rng.randint(3) == 0:
        bi = bool(rng.randint(2))
        flow = real_flow(rng, 4, bi)
        if rng.randint(2):
            flow.train(rng.randn(100, 4).cumsum(axis=0) * .1 + rng.randn(100, 4))
    elif rng.randint(3) == 0:
        bi = False
        fx, fy, sx, sy = [int(rng.randint(1, 4)) for _ in range(4)]
        ix, iy = fx + sx * int(rng.randint(1, 4)) + int(rng.randint(0, 2)), fy + sy * int(rng.randint(1, 4)) + int(rng.randint(0, 2))
        ch = int(rng.randint(1, 3))
        sw = hinet.Rectangular2dSwitchboard((ix, iy), (fx, fy), (sx, sy), ch, ignore_cover=True)
        flow = mdp.Flow([sw, Probe('p1', sw.output_dim)])
    else:
        bi, flow = display_flow(rng)
    twin = flow.copy()
    cls = classes(flow)
    ext = mdp.get_active_extensions()
    show = [hinet.show_flow, bimdp.hinet.show_biflow][rng.randint(2)] if not bi else bimdp.hinet.show_biflow
    with Watch(rec) as w:
        given = bool(rng.randint(2))
        fn = os.path.join(w.base, 'view.html') if given else None
        w.allowed = fn or w.tmp
        browse = bool(rng.randint(2))
        title = 'A title %d' % rng.randint(100)
        size = bool(rng.randint(2))
        out = show(flow, filename=fn, title=title, show_size=size, browser_open=browse)
        rec.require(fn is None or out == fn, 'wrong-place', lambda: out)
        s, t = read_page(rec, out)
        rec.require(len(BROWSER['seen']) == int(browse), 'browser', 'opened %d times' % len(BROWSER['seen']))
        if browse:
            rec.require(BROWSER['seen'][0][1] == s, 'browser-incomplete', 'page was not complete when opened')
            rec.event('browser')
        rec.require(title in s, 'title', title)
        # every node of the structure in order, with its dimensions
        pos = s.index('</style>')
        for k, m in leaves(flow):
            i = s.find(str(k), pos)
            rec.require(i >= 0, 'display-missing', lambda: '%s is not shown (in order)' % str(k))
            pos = i + len(str(k))
        body = s[s.index('</style>'):]
        dims = re.findall(r'in-dim: (\w+)', body)
        want = [str(k.input_dim) for k in display_order(flow)]
        rec.require(dims == want, 'display-dims', lambda: (dims, want))
        odims = re.findall(r'out-dim: (\w+)', body)
        rec.require(sorted(odims) == sorted(str(k.output_dim) for k in display_order(flow)), 'display-dims', lambda: odims)
        rec.require(bool(re.search(r'(?<!font-)size: ', body)) == size, 'display-size', 'show_size=%r' % size)
        for k, m in leaves(flow):
            if isinstance(k, hinet.Rectangular2dSwitchboard):
                ux, uy = k.unused_channels_xy
                rec.require(('unused channels' in body) == bool(ux or uy), 'display-unused',
                            lambda: 'unused channels %r' % (k.unused_channels_xy,))
            if isinstance(k, BiNode) and show is bimdp.hinet.show_biflow:
                rec.require('id: %s' % k.node_id in body, 'display-id', lambda: k.node_id)
            if isinstance(k, bimdp.nodes.SenderBiNode) and show is bimdp.hinet.show_biflow:
                rec.require('recipient id: b1' in body, 'display-sender', 'recipient')
        if show is bimdp.hinet.show_biflow:
            cl = [k for top in flow for k in all_nodes(top) if isinstance(k, CloneBiLayer)]
            shown = re.findall(r'use copies: (\w+)', body)
            rec.require(sorted(shown) == sorted(str(k.use_copies) for k in cl) or not cl, 'display-copies',
                        lambda: 'copies shown %r, layers %r' % (shown, [k.use_copies for k in cl]))
        no_residue(rec, flow)
        twin_equal(rec, flow, twin, 'display-state')
        rec.require(classes(flow) == cls, 'class-changed', 'a class was changed')
        rec.require(mdp.get_active_extensions() == ext, 'extension-left', lambda: mdp.get_active_extensions())
        # the XHTML converter gives well-formed markup of the same content
        import io
        buf = io.StringIO()
        hv = hinet.HiNetXHTMLVisitor(buf, show_size=size)
        if not bi:
            hv.convert_flow(flow)
            try:
                doc = xml.dom.minidom.parseString('<r>%s</r>' % buf.getvalue())
            except Exception as e:
                rec.require(False, 'xhtml', 'not well-formed: %s' % e)
            text = ''.join(c.data for c in walk(doc) if c.nodeType == c.TEXT_NODE)
            for k, m in leaves(flow):
                rec.require(str(k) in text, 'xhtml-missing', str(k))
    rec.event('displays')
    rec.case(('display', show.__name__, tuple(type(k).__name__ for k, m in leaves(flow)), given, browse, size))


def walk(n):
    yield n
    for c in n.childNodes:
        for k in walk(c):
            yield k


def display_order(flow):
    out = []

    def go(n):
        if hasattr(n, 'flow'):
            for k in n.flow:
                go(k)
            return
        out.append(n)
        if isinstance(n, hinet.CloneLayer):
            go(n.nodes[0])
        elif isinstance(n, hinet.Layer):
            for k in n.nodes:
                go(k)
    for n in flow:
        go(n)
    return out


# ---------------------------------------------------------------- slideshows

@CHECK.scenario(quick=30, thorough=200)
def slideshows(rng, rec):
    n = int(rng.randint(1, 12))
    files = ['img_%d.png' % i for i in range(n)]
    sect = [None, [int(v) for v in np.sort(rng.randint(0, 3, size=n))], ['s%d' % v for v in np.sort(rng.randint(0, 3, size=n))]][rng.randint(3)]
    kw = dict(delay=[None, 50][rng.randint(2)] if rng.randint(2) else 100, loop=bool(rng.randint(2)),
              mag_control=bool(rng.randint(2)), title=[None, 'Slides'][rng.randint(2)], section_ids=sect)
    size = (int(rng.randint(1, 99)), int(rng.randint(1, 99)))
    with Watch(rec) as w:
        given = bool(rng.randint(2))
        fn = os.path.join(w.base, 's.html') if given else None
        w.allowed = fn or w.tmp
        browse = bool(rng.randint(2))
        f = mdp.utils.show_image_slideshow(files, size, filename=fn, open_browser=browse, **kw)
        rec.require(hasattr(f, 'close') and os.path.isfile(f.name), 'slideshow-file', lambda: f)
        s, t = read_page(rec, f.name)
        rec.require(t.options == files, 'slideshow-files', lambda: (t.options, files))
        rec.require('= %d; // image' % 0 not in s, 'slideshow-size', 'size')
        rec.require('original_width = %d;' % size[0] in s and 'original_height = %d;' % size[1] in s, 'slideshow-size', lambda: size)
        if browse:
            rec.require(len(BROWSER['seen']) == 1 and BROWSER['seen'][0][0] == os.path.abspath(f.name) and
                        BROWSER['seen'][0][1] == s, 'browser-incomplete', lambda: [b[0] for b in BROWSER['seen']])
            rec.event('browser')
        if sect is not None:
            m = re.search(r'var section_ids = new Array\((.*?)\);', s, re.S)
            ids = re.findall(r'"\w+?_section_id_(\w+)"', m.group(1))
            rec.require(ids == [str(v) for v in sect], 'slideshow-sections', lambda: (ids, sect))
        rec.require('$' not in re.sub(r'\$\(', '', t_script(s)), 'slideshow-template', 'unfilled template')
        f.close()
        if sect is not None and n > 1:
            try:
                mdp.utils.image_slideshow(files, size, section_ids=sect[:-1])
            except Exception:
                rec.event('failures')
            else:
                rec.require(False, 'slideshow-mismatch', 'sections of another number accepted')
    rec.event('slideshows')
    rec.case(('slides', n, given, browse, sect is None, str(kw)))


def t_script(s):
    return ''.join(re.findall(r'<script.*?</script>', s, re.S))
