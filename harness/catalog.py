"""Catalogue of node configurations used as workloads by several checks."""
import numpy as np
import mdp
import mdp.nodes as mn

D = 4


def smooth_mix(rng, n, d=D, dtype='d'):
    """Temporally smooth, full-rank, correlated data with distinct spectra."""
    t = np.arange(n)[:, None]
    f = 0.05 * (1 + np.arange(d)) * (0.8 + 0.4 * rng.rand(d))
    ph = rng.rand(d) * 6.28
    s = np.sin(t * f + ph) + 0.3 * rng.randn(n, d)
    while True:
        a = rng.randn(d, d) + 2.5 * np.eye(d)
        if np.linalg.cond(a) < 12:
            break
    x = s.dot(a) + rng.randn(d)
    return np.ascontiguousarray(x.astype(dtype))


def mix(rng, n, d=D, dtype='d'):
    s = np.concatenate([rng.laplace(size=(n, (d + 1) // 2)),
                        rng.uniform(-1.7, 1.7, size=(n, d // 2))], axis=1)
    a = np.linalg.qr(rng.randn(d, d))[0] * (1 + np.arange(d)) + 0.1 * rng.randn(d, d)
    return np.ascontiguousarray((s.dot(a) + rng.randn(d)).astype(dtype))


def positive(rng, n, d=D, dtype='d'):
    return np.abs(mix(rng, n, d, dtype)) + 0.1


def lab3(rng, X):
    """deterministic labels, all present, in random order"""
    lab = np.arange(len(X)) % 3
    rng.shuffle(lab)
    return lab


def lab6(rng, X):
    """more classes than dimensions; class means depend on the labels"""
    lab = np.arange(len(X)) % 6
    rng.shuffle(lab)
    cent = np.random.RandomState(5).randn(6, X.shape[1]) * 3
    X += cent[lab].astype(X.dtype) if X.dtype.kind == 'f' else 0
    return lab


def labpm(rng, X):
    lab = np.arange(len(X)) % 2 * 2 - 1
    rng.shuffle(lab)
    return lab


def ydata(rng, X):
    return (X[:, :2] * 1.5 - X[:, 1:3] + 0.1 * rng.randn(len(X), 2)).astype(X.dtype)


def lab_col(rng, X):
    """RBM label units: one-hot, 3 columns"""
    return np.eye(3)[np.arange(len(X)) % 3].astype(X.dtype)


def signdata(rng, n, d=8, dtype='d'):
    return (rng.randint(0, 2, size=(n, d)) * 2 - 1).astype('i')


def binary(rng, n, d=D, dtype='d'):
    return (rng.rand(n, d) < 0.5).astype(dtype)


class Spec(object):
    def __init__(self, name, make, gen=smooth_mix, extra=None, d=D, n=160,
                 chunk=None, minchunk=1, rowwise=True, rexec=False, rtrain=False,
                 rows=None, inv=None, dtypes='df', ints=(), sign=False, tol=1e-7,
                 getters=None, exec_extra=None, online=False, trainable=True,
                 out='node', classifier=False, stateful_exec=False, slow=False,
                 sample_rows=40, minexec=1, maxexec=None):
        self.name = name
        self.make = make
        self.gen = gen
        self.extra = extra
        self.d = d
        self.n = n
        self.chunk = chunk          # None | 'any' | 'overlap'
        self.minchunk = minchunk
        self.rowwise = rowwise
        self.rexec = rexec
        self.rtrain = rtrain
        self.rows = rows or (lambda n: n)
        self.inv = inv              # None | 'exact' | 'proj' | 'orth' | other str
        self.dtypes = dtypes
        self.ints = ints
        self.sign = sign
        self.tol = tol
        self.getters = getters
        self.exec_extra = exec_extra
        self.online = online
        self.trainable = trainable
        self.out = out              # 'node' | 'any'
        self.classifier = classifier
        self.stateful_exec = stateful_exec
        self.slow = slow
        self.sample_rows = sample_rows
        self.minexec = minexec
        self.maxexec = maxexec

    def __repr__(self):
        return 'Spec(%s)' % self.name

    # -- helpers -----------------------------------------------------
    def data(self, rng, n=None, dtype=None):
        X = self.gen(rng, n or self.n, self.d)
        if dtype is not None:
            X = X.astype(dtype)
        return X

    def train_args(self, rng, X):
        """Per-sample extra training array (or None)."""
        return None if self.extra is None else self.extra(rng, X)

    def feed(self, node, chunks):
        """Train one phase from a list of (x, extra)."""
        for x, e in chunks:
            if e is None:
                node.train(x)
            else:
                node.train(x, e)

    def train(self, node, chunks):
        """Train completely: every phase gets all chunks."""
        if not node.is_trainable():
            return node
        for _ in range(100):
            if not node.is_training():
                break
            self.feed(node, chunks)
            node.stop_training()
        return node

    def split(self, X, E, cuts, copy=True):
        """Chunks at the given cut points, with overlap if needed."""
        edges = [0] + sorted(cuts) + [len(X)]
        out = []
        for a, b in zip(edges[:-1], edges[1:]):
            if b <= a:
                continue
            if self.chunk == 'overlap' and b < len(X):
                b2 = b + 1
            else:
                b2 = b
            x = X[a:b2]
            e = None if E is None else E[a:b2]
            if copy:
                x = x.copy()
                e = None if e is None else (e.copy() if hasattr(e, 'copy') else e)
            out.append((x, e))
        return out

    def trained(self, rng, dtype=None, n=None, seed=None):
        """A trained node and its training data."""
        X = self.data(rng, n, dtype)
        E = self.train_args(rng, X)
        node = self.make()
        if seed is not None:
            np.random.seed(seed)
        self.train(node, [(X.copy(), None if E is None else E.copy())])
        return node, X, E

    def xin(self, rng, n=20, dtype=None):
        """Valid execution input."""
        if self.maxexec:
            n = min(n, self.maxexec)
        return self.data(rng, max(n, self.minexec), dtype)

    def run(self, node, x):
        if self.exec_extra is not None:
            return node.execute(x, *self.exec_extra(x))
        return node.execute(x)


def _linear_sq(x):
    return x ** 2


def _ident(x):
    return x


def _pairprod(x):
    return x[:, :1] * x


def S(*a, **k):
    SPECS.append(Spec(*a, **k))


SPECS = []
# --- linear decompositions
S('PCA', lambda **k: mn.PCANode(**k), chunk='any', inv='exact', sign=True)
S('PCA2', lambda **k: mn.PCANode(output_dim=2, **k), chunk='any', inv='orth', sign=True)
S('PCA_svd', lambda **k: mn.PCANode(svd=True, **k), chunk='any', inv='exact', sign=True)
S('PCA_reduce', lambda **k: mn.PCANode(reduce=True, **k), chunk='any', inv='exact', sign=True)
S('PCA_frac', lambda **k: mn.PCANode(output_dim=0.8, **k), chunk='any', inv='orth', sign=True)
S('Whitening', lambda **k: mn.WhiteningNode(**k), chunk='any', inv='exact', sign=True)
S('Whitening_svd2', lambda **k: mn.WhiteningNode(output_dim=2, svd=True, **k), chunk='any',
  inv='proj', sign=True)
S('NIPALS', lambda **k: mn.NIPALSNode(**k), gen=mix, chunk='any', inv='exact', sign=True, dtypes='d')
S('FDA', lambda **k: mn.FDANode(**k), extra=lab6, chunk='any', inv='exact', sign=True, tol=1e-5)
S('FDA2', lambda **k: mn.FDANode(output_dim=2, **k), extra=lab6, chunk='any', inv='proj', sign=True, tol=1e-5)
S('LinReg', lambda **k: mn.LinearRegressionNode(**k), extra=ydata, chunk='any')
S('LinReg_nobias_pinv', lambda **k: mn.LinearRegressionNode(with_bias=False, use_pinv=True, **k),
  extra=ydata, chunk='any')
# --- slow features
S('SFA', lambda **k: mn.SFANode(include_last_sample=False, **k), chunk='overlap', minchunk=2,
  inv='exact', sign=True, tol=1e-5)
S('SFA2dim', lambda **k: mn.SFANode(output_dim=2, include_last_sample=False, **k),
  chunk='overlap', minchunk=2, inv='proj', sign=True, tol=1e-5)
S('SFA_default', lambda **k: mn.SFANode(**k), minchunk=2, inv='exact', sign=True, tol=1e-5)
S('SFA_pca', lambda **k: mn.SFANode(rank_deficit_method='pca', include_last_sample=False, **k),
  chunk='overlap', minchunk=2, inv='exact', sign=True, tol=1e-5)
S('SFA_svd', lambda **k: mn.SFANode(rank_deficit_method='svd', include_last_sample=False, **k),
  chunk='overlap', minchunk=2, inv='exact', sign=True, tol=1e-5)
S('SFA_reg', lambda **k: mn.SFANode(rank_deficit_method='reg', include_last_sample=False, **k),
  chunk='overlap', minchunk=2, inv='exact', sign=True, tol=1e-5)
S('SFA_ldl', lambda **k: mn.SFANode(rank_deficit_method='ldl', include_last_sample=False, **k),
  chunk='overlap', minchunk=2, inv='exact', sign=True, tol=1e-5)
S('SFA2', lambda **k: mn.SFA2Node(include_last_sample=False, **k), d=3, n=300, dtypes='d',
  chunk='overlap', minchunk=2, sign=True, tol=1e-4)
S('VartimeSFA', lambda **k: mn.VartimeSFANode(**k), minchunk=2, inv='exact', sign=True, tol=1e-5, dtypes='d')
S('GSFA', lambda **k: mn.GSFANode(train_mode='regular', **k), minchunk=2, inv='exact', sign=True, tol=1e-5)
S('iGSFA', lambda **k: mn.iGSFANode(output_dim=3, max_length_slow_part=2,
                                  slow_feature_scaling_method=None, delta_threshold=1.5,
                                  expansion_funcs=None, **k), minchunk=2, sign=True, tol=1e-4, dtypes='d', inv='any')
S('XSFA', lambda **k: mn.XSFANode((mn.PolynomialExpansionNode, (1,), {}),
                                  (mn.PolynomialExpansionNode, (1,), {}), True, **k),
  d=3, n=400, gen=mix, dtypes='d', minchunk=2, slow=True)
S('Eta', lambda **k: mn.EtaComputerNode(**k), chunk='overlap', minchunk=2,
  getters=lambda n: [n.get_eta(), n.get_eta(t=7)], tol=1e-6, inv='exact')
# --- ICA
S('CuBICA', lambda **k: mn.CuBICANode(**k), gen=mix, n=400, chunk='any', inv='exact')
S('FastICA_defl', lambda **k: mn.FastICANode(approach='defl', **k), gen=mix, n=500, chunk='any',
  inv='exact', rtrain=True, dtypes='d')
S('FastICA_symm', lambda **k: mn.FastICANode(approach='symm', g='tanh', fine_g='tanh', **k), gen=mix,
  n=500, chunk='any', inv='exact', rtrain=True, dtypes='d')
S('JADE', lambda **k: mn.JADENode(**k), gen=mix, n=400, chunk='any', inv='exact', dtypes='d', sign='perm')
S('TDSEP', lambda **k: mn.TDSEPNode(lags=2, **k), n=300, inv='exact', minchunk=5, dtypes='d')
S('ISFA', lambda **k: mn.ISFANode(lags=3, sfa_ica_coeff=(1., 0.), **k), n=300, inv='exact',
  minchunk=5, dtypes='d', rtrain=True)
# --- probabilistic
S('FA', lambda **k: mn.FANode(output_dim=2, max_cycles=30, **k), chunk='any', rtrain=True, tol=1e-5,
  dtypes='d', rexec=False)
S('RBM', lambda **k: mn.RBMNode(5, **k), gen=binary, rtrain=True, rexec=True, dtypes='df')
S('RBM_probs', lambda **k: mn.RBMNode(5, **k), gen=binary, rtrain=True, dtypes='df',
  exec_extra=lambda x: (True,))
S('RBMLabels', lambda **k: mn.RBMWithLabelsNode(5, 3, **k), gen=binary, rtrain=True, rexec=True,
  extra=lab_col, exec_extra=lambda x: (np.eye(3)[np.arange(len(x)) % 3].astype(x.dtype),), dtypes='df',
  out='any')
# --- expansions
S('Poly3', lambda **k: mn.PolynomialExpansionNode(3, **k), trainable=False)
S('Quadratic', lambda **k: mn.QuadraticExpansionNode(**k), trainable=False)
S('RBFexp', lambda **k: mn.RBFExpansionNode(np.arange(12.).reshape(3, 4) - 5, [1., 2., 3.], **k),
  trainable=False)
S('GeneralExp', lambda **k: mn.GeneralExpansionNode([_ident, _linear_sq, _pairprod], **k),
  trainable=False)
S('RecursiveExp', lambda **k: mn.RecursiveExpansionNode(degree=3, recf='legendre_poly', **k),
  trainable=False)
S('RecursiveExp_std', lambda **k: mn.RecursiveExpansionNode(degree=2, with0=False, **k),
  trainable=False)
S('NormRecExp', lambda **k: mn.NormalizingRecursiveExpansionNode(degree=2, recf='chebyshev_poly', check=False, **k),
  chunk='any', tol=1e-6)
S('GNGExpansion', lambda **k: mn.GrowingNeuralGasExpansionNode(max_nodes=8, **k), rtrain=True, n=300,
  dtypes='df')
# --- misc
S('Identity', lambda **k: mn.IdentityNode(**k), trainable=False, inv='exact', ints=('i', 'h'))
S('Cutoff', lambda **k: mn.CutoffNode(lower_bound=-1, upper_bound=1, **k), trainable=False)
S('AdaptiveCutoff', lambda **k: mn.AdaptiveCutoffNode(0.1, 0.1, **k), chunk='any')
S('Histogram', lambda **k: mn.HistogramNode(**k), chunk='any',
  getters=lambda n: [np.sort(n.data_hist, axis=0)], inv='exact')
S('HitParade', lambda **k: mn.HitParadeNode(5, 3, **k), chunk='any', ints=('i',),
  getters=lambda n: list(n.get_maxima()) + list(n.get_minima()), inv='exact')
S('Normalize', lambda **k: mn.NormalizeNode(**k), chunk='any', inv='exact')
S('Noise', lambda **k: mn.NoiseNode(**k), trainable=False, rexec=True)
S('NormalNoise', lambda **k: mn.NormalNoiseNode(noise_args=(0, 0.5), **k), trainable=False, rexec=True)
S('TimeFrames', lambda **k: mn.TimeFramesNode(3, 2, **k), trainable=False, rowwise=False,
  rows=lambda n: n - 4, ints=('i',), minexec=8)
S('TimeDelay', lambda **k: mn.TimeDelayNode(3, 2, **k), trainable=False, rowwise=False, ints=('i',))
S('TimeDelaySW', lambda **k: mn.TimeDelaySlidingWindowNode(3, 2, **k), trainable=False, rowwise=False,
  stateful_exec=True, ints=('i',), maxexec=1)
S('GNG', lambda **k: mn.GrowingNeuralGasNode(max_nodes=8, **k), rtrain=True, chunk=None, n=300,
  inv='exact')
S('NeuralGas', lambda **k: mn.NeuralGasNode(num_nodes=5, max_epochs=4, **k), rtrain=True, n=60,
  inv='exact')
S('LLE', lambda **k: mn.LLENode(6, output_dim=2, **k), gen=mix, n=40, chunk='any', dtypes='d', tol=1e-5)
S('HLLE', lambda **k: mn.HLLENode(10, output_dim=2, **k), gen=mix, n=40, d=3, chunk='any', dtypes='d',
  tol=1e-5)
# --- classifiers
S('Gaussian', lambda **k: mn.GaussianClassifier(**k), extra=lab3, chunk='any', classifier=True,
  getters=lambda n: [np.array([n.means[i] for i in range(len(n.labels))])])
S('NearestMean', lambda **k: mn.NearestMeanClassifier(**k), extra=lab3, chunk='any', classifier=True, inv='exact')
S('KNN', lambda **k: mn.KNNClassifier(k=3, **k), extra=lab3, chunk='any', classifier=True, inv='exact')
S('Perceptron', lambda **k: mn.PerceptronClassifier(**k), extra=labpm, chunk='any', classifier=True, inv='exact')
S('KMeans', lambda **k: mn.KMeansClassifier(3, **k), chunk='any', classifier=True, rtrain=True, inv='exact')
S('Signum', lambda **k: mn.SignumClassifier(**k), trainable=False, classifier=True, inv='exact', dtypes='df')
S('LibSVM', lambda **k: mn.LibSVMClassifier("LINEAR", "C_SVC", **k), extra=labpm, chunk='any',
  classifier=True, dtypes='d', n=60)
S('SKPCA', lambda **k: mn.PCAScikitsLearnNode(n_components=2, **k), chunk='any', dtypes='d', sign=True, out='any')
S('SKLogReg', lambda **k: mn.LogisticRegressionScikitsLearnNode(**k), extra=lab3, chunk='any',
  classifier=True, dtypes='d')
# --- online
S('OnlineCentering', lambda **k: mn.OnlineCenteringNode(**k), online=True, inv='exact', chunk='any', tol=1e-6)
S('OnlineTimeDiff', lambda **k: mn.OnlineTimeDiffNode(**k), online=True, rowwise=False)
S('CCIPCA', lambda **k: mn.CCIPCANode(output_dim=2, numx_rng=np.random.RandomState(3), **k), online=True,
  chunk='any', inv='any', dtypes='d')
S('CCIPCAWhitening', lambda **k: mn.CCIPCAWhiteningNode(output_dim=2, numx_rng=np.random.RandomState(3), **k),
  online=True, chunk='any', inv='any', dtypes='d')
S('MCA', lambda **k: mn.MCANode(output_dim=2, numx_rng=np.random.RandomState(3), **k), online=True,
  chunk='any', dtypes='d', inv='any', gen=lambda r, n, d, dtype='d': mix(r, n, d) * 0.2)
S('IncSFA', lambda **k: mn.IncSFANode(output_dim=2, numx_rng=np.random.RandomState(3), **k), online=True,
  dtypes='d', inv='proj')


def _layer(**k):
    return mdp.hinet.Layer([mn.PCANode(input_dim=2, output_dim=2), mn.SFANode(input_dim=2)], **k)


def _clone(**k):
    return mdp.hinet.CloneLayer(mn.WhiteningNode(input_dim=2), n_nodes=2, **k)


def _same(**k):
    return mdp.hinet.SameInputLayer([mn.PCANode(input_dim=4, output_dim=2),
                                     mn.NormalizeNode(input_dim=4)], **k)


def _flownode(**k):
    return mdp.hinet.FlowNode(mdp.Flow([mn.PCANode(output_dim=3), mn.WhiteningNode()]), **k)


def _switch(**k):
    return mdp.hinet.Switchboard(input_dim=4, connections=[3, 1, 0, 2, 1], **k)


def _switchperm(**k):
    return mdp.hinet.Switchboard(input_dim=4, connections=[3, 1, 0, 2], **k)


S('Layer', _layer, minchunk=2, inv='exact', sign=True, tol=1e-5)
S('CloneLayer', _clone, chunk='any', inv='exact', sign=True)
S('SameInputLayer', _same, chunk='any', sign=True)
S('FlowNode', _flownode, chunk='any', inv='proj', sign=True)
S('FlowNode_fda', lambda **k: mdp.hinet.FlowNode(mdp.Flow([mn.PCANode(), mn.QuadraticExpansionNode(),
                                                           mn.PCANode(output_dim=3)]), **k),
  chunk='any', sign=True)
S('Switchboard', _switch, trainable=False)
S('SwitchboardPerm', _switchperm, trainable=False, inv='exact')


class TwoPhase(mdp.Node):
    """User-defined two-phase node: centre, then scale."""
    def _get_train_seq(self):
        return [(self._train_mean, self._stop_mean), (self._train_std, self._stop_std)]

    def __init__(self, **k):
        super(TwoPhase, self).__init__(**k)
        self.s = 0.
        self.n = 0
        self.q = 0.
        self.m = 0

    def _train_mean(self, x):
        self.s = self.s + x.sum(axis=0)
        self.n += len(x)

    def _stop_mean(self):
        self.mean = self.s / self.n

    def _train_std(self, x):
        self.q = self.q + ((x - self.mean) ** 2).sum(axis=0)
        self.m += len(x)

    def _stop_std(self):
        self.std = np.sqrt(self.q / self.m)

    def _execute(self, x):
        return self._refcast((x - self.mean) / self.std)

    def _inverse(self, y):
        return self._refcast(y * self.std + self.mean)


S('Cumulator', lambda **k: mdp.Cumulator(**k), chunk='any', inv='exact', getters=lambda n: [n.data])
S('UserTwoPhase', lambda **k: TwoPhase(**k), chunk='any', inv='exact')

BY_NAME = dict((s.name, s) for s in SPECS)


def select(**conds):
    out = []
    for s in SPECS:
        if all((getattr(s, k) == v) if not callable(v) else v(getattr(s, k))
               for k, v in conds.items()):
            out.append((s.name, s))
    return out


def maxdiff(a, b):
    a = np.asarray(a, dtype='D' if np.iscomplexobj(a) else 'd')
    b = np.asarray(b, dtype='D' if np.iscomplexobj(b) else 'd')
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.
    bad = np.isnan(a) != np.isnan(b)
    if bad.any():
        return float('inf')
    d = np.abs(a - b)
    d = d[~np.isnan(d)]
    return float(d.max()) if d.size else 0.


def scale(a):
    a = np.asarray(a)
    if a.size == 0:
        return 1.
    return max(1., float(np.nanmax(np.abs(a.astype('d')))))


def close(a, b, tol, sign=False):
    """Equality up to tol relative to the magnitude, optionally up to column sign."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if sign == 'perm' and a.ndim == 2:
        # components in arbitrary order
        a = a.astype('d')
        b = b.astype('d')
        m = np.abs(a.T.dot(b)) / (np.sqrt((a ** 2).sum(0))[:, None] * np.sqrt((b ** 2).sum(0)) + 1e-300)
        idx = m.argmax(axis=0)
        if sorted(idx) != list(range(a.shape[1])):
            return False
        a = a[:, idx]
    if sign and a.ndim == 2:
        a = a.astype('d').copy()
        b = b.astype('d')
        for j in range(a.shape[1]):
            if np.dot(a[:, j], b[:, j]) < 0:
                a[:, j] *= -1
    return maxdiff(a, b) <= tol * scale(b)
