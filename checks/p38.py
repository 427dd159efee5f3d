"""P38 wrapped external learners: same answers as the wrapped library, life cycle of a node."""
import copy
import ctypes
import inspect
import pickle
import sys
import warnings
import numpy as np
import mdp
import sklearn.base
from harness.core import Check, Skip

CHECK = Check('P38', 'A case is one wrapped estimator with parameters, number type, label kind and chunking; everything '
              'the node returns is compared with the library object built and fitted directly on all the data (same '
              'random state). Distinct by estimator, parameters, dtype, label kind and chunking.')
CHECK.expect_events(classifiers=60, transformers=60, predictors=60, rows=800, copies=150, libsvm=40,
                    probabilities=60, registered=100, refusals=30, flows=40, layers=30)

SUFFIX = 'ScikitsLearnNode'
NAMES = dict((n[:-len(SUFFIX)], getattr(mdp.nodes, n)) for n in dir(mdp.nodes) if n.endswith(SUFFIX))


def cls_instance(cls, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return cls(**kw)


def seeded(cls, kw):
    try:
        if 'random_state' in inspect.signature(cls.__init__).parameters:
            kw = dict(kw, random_state=0)
    except (TypeError, ValueError):
        pass
    return kw


def find(name):
    """The library's own class of this name."""
    import sklearn.utils
    out = []
    import sys
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('sklearn.') and inspect.isclass(getattr(m, name, None)):
            out.append(getattr(m, name))
    out = [c for c in out if c.__name__ == name]
    return out[0] if out else None


def chunks(rng, n):
    k = rng.randint(1, 5)
    cuts = sorted(int(v) for v in rng.randint(1, n, size=k - 1))
    cuts = [0] + cuts + [n]
    return [(a, b) for a, b in zip(cuts, cuts[1:]) if b > a]


CLASSIFIERS = [
    ('GaussianNB', [{}, dict(var_smoothing=.1)]), ('LinearDiscriminantAnalysis', [{}, dict(solver='lsqr', shrinkage=.3)]),
    ('QuadraticDiscriminantAnalysis', [{}, dict(reg_param=.4)]), ('KNeighborsClassifier', [{}, dict(n_neighbors=1), dict(n_neighbors=7, weights='distance')]),
    ('NearestCentroid', [{}, dict(shrink_threshold=.5)]), ('DecisionTreeClassifier', [{}, dict(max_depth=2), dict(criterion='entropy')]),
    ('ExtraTreeClassifier', [{}]), ('RandomForestClassifier', [dict(n_estimators=5), dict(n_estimators=3, max_depth=1)]),
    ('LogisticRegression', [{}, dict(C=.01), dict(fit_intercept=False)]), ('RidgeClassifier', [{}, dict(alpha=30.)]),
    ('Perceptron', [{}, dict(max_iter=5)]), ('SGDClassifier', [{}, dict(loss='hinge', alpha=.1)]),
    ('SVC', [{}, dict(kernel='linear'), dict(C=.05, gamma=2.)]), ('NuSVC', [dict(nu=.2)]), ('LinearSVC', [{}]),
    ('BernoulliNB', [{}, dict(binarize=.5)]), ('DummyClassifier', [dict(strategy='most_frequent')]),
    ('PassiveAggressiveClassifier', [{}]), ('AdaBoostClassifier', [dict(n_estimators=4)]), ('LabelSpreading', [{}]),
    ('MLPClassifier', [dict(max_iter=20, hidden_layer_sizes=(4,))]), ('BaggingClassifier', [dict(n_estimators=3)]),
    ('GradientBoostingClassifier', [dict(n_estimators=4)]), ('GaussianProcessClassifier', [{}])]

TRANSFORMERS = [
    ('PCA', [{}, dict(n_components=2), dict(n_components=1, whiten=True)]), ('StandardScaler', [{}, dict(with_mean=False)]),
    ('MinMaxScaler', [{}, dict(feature_range=(-2, 3))]), ('MaxAbsScaler', [{}]), ('RobustScaler', [{}]),
    ('Binarizer', [dict(threshold=.3)]), ('Normalizer', [{}, dict(norm='l1')]), ('PolynomialFeatures', [dict(degree=2), dict(degree=3, include_bias=False)]),
    ('FactorAnalysis', [dict(n_components=2)]), ('FastICA', [dict(n_components=3, whiten='unit-variance')]), ('TruncatedSVD', [dict(n_components=2)]),
    ('KernelPCA', [dict(n_components=3, kernel='rbf')]), ('Isomap', [dict(n_components=2)]), ('Nystroem', [dict(n_components=7)]),
    ('RBFSampler', [dict(n_components=9)]), ('KMeans', [dict(n_clusters=3, n_init=2)]), ('IncrementalPCA', [dict(n_components=2)]),
    ('QuantileTransformer', [dict(n_quantiles=10)]), ('PowerTransformer', [{}]), ('VarianceThreshold', [dict(threshold=1.)]),
    ('FeatureAgglomeration', [dict(n_clusters=2)]), ('GaussianRandomProjection', [dict(n_components=2)]),
    ('SplineTransformer', [dict(n_knots=3)]), ('SparsePCA', [dict(n_components=2, max_iter=10)]),
    ('LocallyLinearEmbedding', [dict(n_components=2, n_neighbors=10)]), ('FunctionTransformer', [{}]),
    ('KBinsDiscretizer', [dict(n_bins=3, encode='onehot-dense'), dict(n_bins=3, encode='ordinal'), dict(n_bins=3)]),
    ('RandomTreesEmbedding', [dict(n_estimators=3)]),
    ('BernoulliRBM', [dict(n_components=5, n_iter=2)]), ('Birch', [dict(n_clusters=2)])]

REGRESSORS = [
    ('LinearRegression', [{}, dict(fit_intercept=False)]), ('Ridge', [{}, dict(alpha=20.)]), ('Lasso', [dict(alpha=.1)]),
    ('ElasticNet', [dict(alpha=.1, l1_ratio=.3)]), ('BayesianRidge', [{}]), ('KNeighborsRegressor', [{}, dict(n_neighbors=2)]),
    ('DecisionTreeRegressor', [{}, dict(max_depth=2)]), ('RandomForestRegressor', [dict(n_estimators=4)]), ('SVR', [{}, dict(kernel='linear')]),
    ('KernelRidge', [dict(kernel='rbf')]), ('HuberRegressor', [{}]), ('DummyRegressor', [{}]), ('GaussianProcessRegressor', [{}]),
    ('SGDRegressor', [{}]), ('MultiTaskLasso', [dict(alpha=.1)]), ('MultiTaskElasticNet', [dict(alpha=.2)]), ('Lars', [{}]),
    ('TheilSenRegressor', [{}]), ('QuantileRegressor', [dict(alpha=.1)]), ('OrthogonalMatchingPursuit', [{}])]

CLUSTERERS = [
    ('GaussianMixture', [dict(n_components=2), dict(n_components=3, covariance_type='diag')]), ('BayesianGaussianMixture', [dict(n_components=2)]),
    ('MeanShift', [{}]), ('AffinityPropagation', [{}]), ('OneClassSVM', [dict(nu=.2)]), ('IsolationForest', [dict(n_estimators=5)])]

MULTI = ('LinearRegression', 'Ridge', 'KNeighborsRegressor', 'DecisionTreeRegressor', 'RandomForestRegressor', 'DummyRegressor',
         'KernelRidge', 'GaussianProcessRegressor', 'Lasso', 'MultiTaskLasso', 'MultiTaskElasticNet')


def blobs(rng, n, d, k):
    y = np.concatenate([np.arange(k), np.arange(k), rng.randint(k, size=n - 2 * k)])
    rng.shuffle(y)
    return rng.randn(n, d) + 2.5 * rng.randn(k, d)[y], y


def train(rng, node, X, y=None, stop=None):
    parts = chunks(rng, len(X))
    buf = X.copy()
    for a, b in parts:
        part = buf[a:b]
        if y is None:
            node.train(part)
        else:
            node.train(part, y[a:b])
        part[:] = 99.                         # the caller reuses its buffer
    node.stop_training(**(stop or {}))
    return len(parts)


def flat_equal(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
        return bool(np.all(a == b))
    return bool(np.allclose(a, b, rtol=tol, atol=tol))


def twins(rec, node, f, want, tol, key):
    """Copies and pickles of a trained node answer alike and share nothing."""
    c = node.copy()
    p = pickle.loads(pickle.dumps(node, -1))
    for n in (c, p):
        rec.require(type(n) is type(node) and flat_equal(f(n), want, tol), key, 'a copy answers differently')
        rec.require(n.scikits_alg is not node.scikits_alg, key, 'the copy shares the wrapped object')
        rec.event('copies')


def quiet_fit(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return f()


@CHECK.each([(n, (n, kws)) for n, kws in CLASSIFIERS], quick=4, thorough=30)
def classifiers(rng, rec, item):
    name, kws = item
    if name not in NAMES:
        raise Skip('not in this sklearn')
    kw = kws[rng.randint(len(kws))]
    cls = NAMES[name]
    ref_cls = find(name)
    kw = seeded(ref_cls, kw)
    d, k = int(rng.randint(1, 6)), int(rng.randint(2, 4))
    X, yi = blobs(rng, int(rng.randint(30, 60)), d, k)
    dtype = str(rng.choice(['d', 'd', 'f']))
    X = X.astype(dtype)
    kind = str(rng.choice(['int', 'neg', 'str', 'float']))
    y = {'int': yi, 'neg': yi * 7 - 5, 'str': np.array(['cat', 'dog', 'emu'])[yi], 'float': yi * .5 - .5}[kind]
    if kind == 'float' and name in ('LabelSpreading', 'LogisticRegression', 'MLPClassifier') or kind == 'float':
        y = yi * 2. - 1.                      # whole numbers: sklearn refuses fractional class labels
    if name == 'LabelSpreading' and kind != 'int':
        y = yi                                # -1 means unlabelled there
    T = (rng.randn(int(rng.randint(1, 9)), d) * 3).astype(dtype)
    stop = {}
    if name in ('GaussianNB', 'DecisionTreeClassifier', 'LogisticRegression', 'SVC') and rng.randint(3) == 0:
        stop = {'sample_weight': rng.rand(len(X)) + .1}
    node = cls_instance(cls, dtype=dtype if rng.randint(2) else None, **kw)
    rec.require(isinstance(node, mdp.ClassifierNode), 'kind', 'wrapped classifier is not a ClassifierNode')
    for p, v in kw.items():
        rec.require(getattr(node.scikits_alg, p) == v, 'parameter', lambda: '%s=%r became %r' % (p, v, getattr(node.scikits_alg, p)))

    def work():
        np.random.seed(4)
        ref = ref_cls(**kw).fit(X, y, **stop)
        np.random.seed(4)
        m = train(rng, node, X, list(y) if kind == 'str' or rng.randint(3) == 0 else y, stop)
        return ref, m
    ref, m = quiet_fit(work)
    T0 = T.copy()
    want = quiet_fit(lambda: ref.predict(T))
    got = quiet_fit(lambda: node.label(T))
    rec.require(np.array_equal(T, T0), 'argument-changed', 'label() changed its argument')
    rec.require(len(got) == len(T) and np.asarray(got).size == len(T), 'rows', lambda: '%s labels for %d rows' % (np.shape(got), len(T)))
    got = np.asarray(got).ravel()
    rec.require(flat_equal(got, want, 0) and got.dtype.kind == want.dtype.kind, 'labels',
                lambda: '%s: %r instead of %r' % (name, got, want))
    rec.event('rows', len(T))
    twins(rec, node, lambda n: np.asarray(quiet_fit(lambda: n.label(T))).ravel(), want, 0, 'copy')
    rec.require(np.array_equal(node.data, X) and np.array_equal(np.asarray(node.labels), np.asarray(y)), 'data',
                'collected data or labels differ from what was given')
    rec.require(not node.is_training() and node.input_dim == d, 'life-cycle', lambda: (node.is_training(), node.input_dim))
    # fitted attributes are reached under their own names
    for a in [v for v in vars(ref) if v.endswith('_') and not v.startswith('_')]:
        v, w = getattr(ref, a), getattr(node.scikits_alg, a)
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu':
            rec.require(flat_equal(v, w, 1e-6), 'attribute', lambda: '%s.%s' % (name, a))
    # as last node of a flow
    node.execute_method = 'label'
    rec.require(flat_equal(np.asarray(quiet_fit(lambda: node.execute(T))).ravel(), want, 0), 'execute-label', 'execute differs from label')
    node.execute_method = None
    rec.require(np.array_equal(node.execute(T), T), 'execute-identity', 'execute without a method must return x')
    rec.event('classifiers')
    rec.case((name, str(sorted(kw.items())), dtype, kind, m, bool(stop)))


def run_real(rng, rec, name, kws, what):
    if name not in NAMES:
        raise Skip('not in this sklearn')
    kw = kws[rng.randint(len(kws))]
    ref_cls = find(name)
    kw = seeded(ref_cls, kw)
    d = int(rng.randint(3, 6))
    n = int(rng.randint(40, 70))
    dtype = str(rng.choice(['d', 'd', 'f']))
    X = blobs(rng, n, d, 3)[0].astype(dtype)
    T = (rng.randn(int(rng.randint(1, 9)), d) * 2).astype(dtype)
    stop = {}
    outs = 1
    if what == 'regressor':
        outs = int(rng.randint(2, 4)) if name.startswith('Multi') or (name in MULTI and rng.randint(2)) else 1
        Y = X.dot(rng.randn(d, outs)) + .1 * rng.randn(n, outs)
        stop = {'y': Y[:, 0] if outs == 1 else Y}
    node = cls_instance(NAMES[name], dtype=dtype if rng.randint(2) else None, **kw)
    for p, v in kw.items():
        rec.require(getattr(node.scikits_alg, p) == v, 'parameter', lambda: '%s=%r became %r' % (p, v, getattr(node.scikits_alg, p)))
    T0 = T.copy()

    def work():
        np.random.seed(4)
        ref = ref_cls(**kw).fit(X, **stop)
        np.random.seed(4)
        m = train(rng, node, X, None, stop)
        np.random.seed(5)
        want = getattr(ref, 'transform' if what == 'transformer' else 'predict')(T)
        np.random.seed(5)
        return ref, m, want, node.execute(T)
    ref, m, want, got = quiet_fit(work)
    want = np.asarray(want.todense()) if hasattr(want, 'todense') else np.asarray(want)
    want = want.reshape(len(T), -1)
    tol = 1e-7 if dtype == 'd' else 1e-3
    rec.require(np.array_equal(T, T0), 'argument-changed', 'execute() changed its argument')
    rec.require(isinstance(got, np.ndarray) and got.ndim == 2 and got.shape[0] == len(T), 'rows',
                lambda: '%s: %s of shape %s for %d rows' % (name, type(got).__name__, np.shape(got), len(T)))
    rec.require(flat_equal(got, want, tol), 'values', lambda: '%s differs from the library: %r / %r' % (name, got[:2], want[:2]))
    rec.require(got.dtype == node.dtype == np.dtype(dtype), 'dtype', lambda: '%s: output %s, node %s, data %s' % (name, got.dtype, node.dtype, dtype))
    rec.require(node.output_dim == got.shape[1], 'output-dim', lambda: '%s: output_dim %r, output has %d columns' % (name, node.output_dim, got.shape[1]))
    rec.event('rows', len(T))
    twins(rec, node, lambda c: quiet_fit(lambda: (np.random.seed(5), c.execute(T))[1]), got, tol, 'copy')
    rec.require(np.array_equal(node.data, X), 'data', 'collected data differ from what was given')
    rec.require(not node.is_training() and node.input_dim == d and not node.is_invertible(), 'life-cycle', 'state after training')
    for a in [v for v in vars(ref) if v.endswith('_') and not v.startswith('_')]:
        v, w = getattr(ref, a), getattr(node.scikits_alg, a)
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu':
            rec.require(flat_equal(v, w, 1e-6 if dtype == 'd' else 1e-2), 'attribute', lambda: '%s.%s' % (name, a))
    if what != 'regressor' and rng.randint(2):
        # inside a flow the next node sees exactly these outputs
        kw2 = dict(kw)
        flow = mdp.Flow([cls_instance(NAMES[name], **kw2), mdp.nodes.PolynomialExpansionNode(1), mdp.nodes.CutoffNode(-1e9, 1e9)])
        np.random.seed(4)
        quiet_fit(lambda: flow.train([[X], None, None]))
        np.random.seed(5)
        out = quiet_fit(lambda: flow.execute(T))
        rec.require(flat_equal(out, want, tol), 'flow', 'flow output differs')
        flow2 = mdp.Flow(list(flow))          # dimensions are consistent
        rec.require(flow2[1].input_dim == flow2[0].output_dim, 'flow', 'dimensions')
        rec.event('flows')
        # and next to another node in a layer
        layer = mdp.hinet.Layer([cls_instance(NAMES[name], input_dim=d, **kw2), mdp.nodes.IdentityNode(input_dim=2)])
        both = np.hstack([X, X[:, :2]])
        np.random.seed(4)
        quiet_fit(lambda: (layer.train(both.astype(np.float64)), layer.stop_training()))
        np.random.seed(5)
        # the wrapped algorithm of the layer has seen double precision
        ref64 = quiet_fit(lambda: (np.random.seed(4), ref_cls(**kw).fit(X.astype(np.float64)))[1])
        meth = 'transform' if what == 'transformer' else 'predict'
        y64 = quiet_fit(lambda: (np.random.seed(5), getattr(ref64, meth)(T.astype(np.float64)))[1])
        y64 = (np.asarray(y64.todense()) if hasattr(y64, 'todense') else np.asarray(y64)).reshape(len(T), -1)
        TT = np.hstack([T, T[:, :2]]).astype(np.float64)
        out = quiet_fit(lambda: (np.random.seed(5), layer.execute(TT))[1])
        rec.require(flat_equal(out, np.hstack([y64, TT[:, -2:]]), 1e-7), 'layer', lambda: 'layer output differs %s' % (out.shape,))
        rec.event('layers')
    rec.event(what + 's' if what == 'transformer' else 'predictors')
    rec.case((name, str(sorted(kw.items())), dtype, outs, m, what))


@CHECK.each([(n, (n, k)) for n, k in TRANSFORMERS], quick=4, thorough=30)
def transformers(rng, rec, item):
    run_real(rng, rec, item[0], item[1], 'transformer')


@CHECK.each([(n, (n, k)) for n, k in REGRESSORS], quick=4, thorough=30)
def regressors(rng, rec, item):
    run_real(rng, rec, item[0], item[1], 'regressor')


@CHECK.each([(n, (n, k)) for n, k in CLUSTERERS], quick=4, thorough=30)
def clusterers(rng, rec, item):
    run_real(rng, rec, item[0], item[1], 'clusterer')


BASIC = set(n for n, k in CLASSIFIERS + TRANSFORMERS + REGRESSORS + CLUSTERERS)


@CHECK.scenario(quick=4, thorough=12)
def registry(rng, rec):
    """Every algorithm found in the library is wrapped once, under its own name and with the right kind."""
    import sklearn
    for base, cls in sorted(NAMES.items()):
        name = base + SUFFIX
        rec.require(cls.__name__ == name, 'registry', name)
        ref = find(base)
        rec.require(ref is not None, 'registry', 'no class %s in the library' % base)
        if base in BASIC:
            rec.require(type(cls_instance(cls).scikits_alg) is ref, 'registry', '%s wraps something else' % name)
        if issubclass(ref, sklearn.base.ClassifierMixin):
            ok = issubclass(cls, mdp.ClassifierNode)
        else:
            ok = issubclass(cls, mdp.Cumulator) and not issubclass(cls, mdp.ClassifierNode)
        rec.require(ok, 'kind', '%s has the wrong kind of node' % name)
        rec.require(cls.is_trainable() and not cls.is_invertible(), 'kind', name)
        rec.event('registered')
        rec.case(('registry', name))
        if rng.randint(4) == 0 and not issubclass(cls, mdp.ClassifierNode):
            try:
                cls(output_dim=3)
            except mdp.NodeException:
                rec.event('refusals')
            else:
                rec.require(False, 'output-dim-accepted', name)
        if rng.randint(4) == 0:
            try:
                cls(no_such_parameter=3)
            except TypeError:
                rec.event('refusals')
            else:
                if 'kwargs' not in str(inspect.signature(ref.__init__)):
                    rec.require(False, 'parameter-accepted', name)


@CHECK.scenario(quick=20, thorough=100)
def misuse(rng, rec):
    """The contracts of native nodes: wrong shapes, types and orders of calls are refused."""
    name = str(rng.choice(['PCA', 'StandardScaler', 'GaussianNB', 'SVC', 'KMeans']))
    if name not in NAMES:
        raise Skip('not in this sklearn')
    cl = issubclass(NAMES[name], mdp.ClassifierNode)
    node = cls_instance(NAMES[name])
    X, y = blobs(rng, 30, 3, 2)
    if cl:
        node.train(X, y)
    else:
        node.train(X)

    def refused(f, *E):
        try:
            quiet_fit(f)
        except E:
            rec.event('refusals')
        else:
            rec.require(False, 'accepted', name)
    refused(lambda: node.train(X[:, :2], *([y] if cl else [])), mdp.NodeException)
    refused(lambda: node.train(X[0], *([y[:1]] if cl else [])), mdp.NodeException)
    if cl:
        refused(lambda: node.train(X, y[:-1]), mdp.TrainingException)
    quiet_fit(node.stop_training)
    refused(lambda: node.train(X, *([y] if cl else [])), mdp.TrainingFinishedException)
    refused(lambda: node.stop_training(), mdp.TrainingFinishedException)
    refused(lambda: node.execute(X[:, :2]), mdp.NodeException)
    refused(lambda: node.inverse(X), mdp.IsNotInvertibleException)
    refused(lambda: cls_instance(NAMES[name], dtype='i'), mdp.NodeException)
    rec.case((name, 'misuse', len(rec.events)))


# ---------------------------------------------------------------- libsvm

LIB = ctypes.CDLL(None)


def svm():
    try:
        import svmutil
        return svmutil
    except ImportError:
        import libsvm.svmutil
        return libsvm.svmutil


@CHECK.scenario(quick=60, thorough=600)
def libsvm(rng, rec):
    """LibSVMClassifier against libsvm called directly (its C random numbers re-seeded)."""
    u = svm()
    K = ['RBF', 'LINEAR', 'POLY', 'SIGMOID']
    kernel = K[rng.randint(4)]
    svmtype = ['C_SVC', 'NU_SVC', 'C_SVC', 'EPSILON_SVR', 'NU_SVR', 'ONE_CLASS'][rng.randint(6)]
    prob = bool(rng.randint(2)) and svmtype in ('C_SVC', 'NU_SVC')
    # the installed libsvm itself crashes with NU_SVC and more than two classes
    d, k = int(rng.randint(1, 5)), 2 if svmtype == 'NU_SVC' else int(rng.randint(2, 4))
    X, yi = blobs(rng, int(rng.randint(20, 50)), d, k)
    if svmtype.endswith('SVR'):
        y = X.sum(axis=1) + .1 * rng.randn(len(X))
    else:
        y = [yi, yi * 3 - 4, yi.astype(float)][rng.randint(3)]
        if svmtype == 'NU_SVC':
            y = np.arange(len(X)) % k         # nu needs balanced classes
    params = {}
    if rng.randint(2):
        params['C'] = float(10 ** rng.uniform(-1, 1.5))
    if rng.randint(2):
        params['gamma'] = float(10 ** rng.uniform(-1, .5))
    if rng.randint(3) == 0:
        params['nu'] = float(rng.uniform(.1, .4))
    if kernel == 'POLY':
        params['degree'] = int(rng.randint(1, 4))
        params['coef0'] = float(rng.randint(0, 2))
    if svmtype == 'NU_SVC' and 'nu' not in params:
        params['nu'] = .2
    case = rng.randint(2)
    node = mdp.nodes.LibSVMClassifier(kernel=kernel if case else None, classifier=svmtype if case else None, probability=prob,
                                      params=dict(params) if case else None)
    if not case:
        node.set_kernel(kernel.lower())
        node.set_classifier(svmtype.lower())
        for p, v in params.items():
            setattr(node.parameter, p, v)
    for p, v in params.items():
        rec.require(abs(getattr(node.parameter, p) - v) < 1e-12, 'parameter', lambda: '%s=%r became %r' % (p, v, getattr(node.parameter, p)))
    rec.require(node.parameter.kernel_type == getattr(u, kernel) and node.parameter.svm_type == getattr(u, svmtype) and
                node.parameter.probability == int(prob), 'parameter', 'kernel or classifier')
    par = u.svm_parameter('-q')
    par.kernel_type, par.svm_type, par.probability = getattr(u, kernel), getattr(u, svmtype), int(prob)
    for p, v in params.items():
        setattr(par, p, v)
    prob_ = u.svm_problem(np.asarray(y).tolist(), X.tolist())
    LIB.srand(7)
    model = u.svm_train(prob_, par)
    LIB.srand(7)
    parts = chunks(rng, len(X))
    buf = X.copy()
    for a, b in parts:
        node.train(buf[a:b], y[a:b] if rng.randint(2) else list(y[a:b]))
        buf[a:b] = 5
    node.stop_training()
    T = rng.randn(int(rng.randint(1, 9)), d) * 3
    T0 = T.copy()
    want = np.array(u.svm_predict([0] * len(T), T.tolist(), model, '-q')[0])
    got = node.label(T)
    rec.require(np.array_equal(T, T0), 'argument-changed', 'label() changed its argument')
    rec.require(np.shape(got) == want.shape and np.array_equal(got, want), 'svm-labels', lambda: '%s %s: %r instead of %r'
                % (svmtype, kernel, got, want))
    rec.event('rows', len(T))
    if svmtype in ('C_SVC', 'NU_SVC'):
        rec.require(set(np.asarray(got)) <= set(np.asarray(y, dtype=float)), 'svm-labels', 'label outside the training labels')
    if prob:
        vals = u.svm_predict([0] * len(T), T.tolist(), model, '-b 1 -q')[2]
        labs = model.get_labels()
        for f in (node.prob, node.predict_probability):
            ps = f(T)
            rec.require(len(ps) == len(T), 'svm-prob', 'one dictionary per row')
            for p, v in zip(ps, vals):
                rec.require(p == dict(zip(labs, v)) and abs(sum(p.values()) - 1) < 1e-6, 'svm-prob', lambda: '%r instead of %r' % (p, (labs, v)))
                rec.event('probabilities')
        r = node.rank(T)
        for p, order in zip(node.prob(T), r):
            rec.require(all(p[a] >= p[b] for a, b in zip(order, order[1:])) and set(order) == set(p), 'svm-rank', lambda: (p, order))
    rec.require(np.array_equal(node.data, X), 'data', 'collected data differ')
    rec.event('libsvm')
    rec.case(('libsvm', kernel, svmtype, prob, str(sorted(params)), len(parts), k))


@CHECK.scenario(quick=12, thorough=60)
def libsvm_refusals(rng, rec):
    N = mdp.nodes.LibSVMClassifier
    bad = str(rng.choice(['rbff', 'C_SVC', '', 'Rbf2']))
    for f, E in ((lambda: N(params={'no_such': 1}), mdp.NodeException), (lambda: N(kernel=bad or 'x'), TypeError),
                 (lambda: N(classifier='RBF'), TypeError), (lambda: N(dtype='f'), mdp.NodeException),
                 (lambda: N().set_kernel('what'), TypeError), (lambda: N().set_classifier('what'), TypeError)):
        try:
            f()
        except E:
            rec.event('refusals')
        else:
            rec.require(False, 'accepted', 'a wrong name was accepted')
    for k in N.kernels:
        n = N(kernel=[k, k.lower(), k.title()][rng.randint(3)])
        rec.require(n.parameter.kernel_type == getattr(svm(), k), 'parameter', k)
    for c in N.classifiers:
        n = N(classifier=[c, c.lower()][rng.randint(2)])
        rec.require(n.parameter.svm_type == getattr(svm(), c), 'parameter', c)
    rec.case(('refuse', bad, rng.randint(1000)))


@CHECK.scenario(quick=30, thorough=200)
def normalizers(rng, rec):
    """The label normaliser of the SVM wrappers is a bijection."""
    L = getattr(sys.modules.get('mdp.nodes.svm_classifiers'), '_LabelNormalizer', None)
    if L is None:
        raise Skip('no label normaliser')
    mode = [None, 'id', 'dual', 'multi'][rng.randint(4)]
    k = int(rng.randint(1, 3)) if mode == 'dual' and rng.randint(2) else int(rng.randint(1, 6))
    pool = [['a', 'b', 'c', 'd', 'e'], [0, -1, 7, 3, 2], [.5, 1.5, -2., 0., 9.]][rng.randint(3)]
    labels = [pool[i] for i in np.concatenate([np.arange(k), rng.randint(k, size=rng.randint(0, 9))])]
    try:
        n = L(labels, mode)
    except mdp.NodeException:
        rec.require(mode == 'dual' and k > 2, 'normalizer', 'refused %r in mode %r' % (labels, mode))
        rec.event('refusals')
    else:
        rec.require(not (mode == 'dual' and k > 2), 'normalizer', 'more than two labels in dual mode')
        z = n.normalize(labels)
        rec.require(list(n.revert(z)) == labels, 'normalizer', lambda: '%r -> %r -> %r' % (labels, z, n.revert(z)))
        rec.require(len(set(z)) == len(set(labels)), 'normalizer', 'labels merged')
        if mode == 'dual':
            rec.require(set(z) <= set([1, -1]), 'normalizer', lambda: z)
        if mode == 'multi':
            rec.require(set(z) == set(range(k)), 'normalizer', lambda: z)
    rec.event('normalizers')
    rec.case(('norm', mode, k, str(labels)))
    try:
        L(labels, 'other')
    except mdp.NodeException:
        pass
    else:
        rec.require(False, 'normalizer', 'unknown mode accepted')
