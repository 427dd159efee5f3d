"""P25 Expansion nodes produce exactly the documented basis functions."""
import itertools
from math import comb
import numpy as np
from numpy.polynomial import legendre, chebyshev
import mdp
from harness.core import Check, Skip

CHECK = Check('P25', 'A case expands random rows with one expansion node (polynomial, radial basis, recursive, normalizing, '
              'general, gas-based) of random degree, dimension, number type, memory layout and options, and compares every '
              'column with the documented function evaluated independently. Distinct by node, degree, dimension and options.')
CHECK.expect_events(monomials=2000, counts=100, rbf_values=2000, recursive_values=2000, normalized=60, general_columns=200,
                    preimages=8, refused=20, domain_checks=40)

N = mdp.nodes


def layout(rng, x):
    how = rng.randint(3)
    if how == 1:
        return np.asfortranarray(x)
    if how == 2:
        big = np.zeros((2 * len(x), x.shape[1]), x.dtype)
        big[::2] = x
        return big[::2]
    return x


def tol(dt, scale=1.):
    return (2e-5 if dt == 'f' else 1e-10) * scale


def run(rec, node, x, what):
    """Execute, checking shape, announced dimension, type and that x is untouched."""
    before = x.copy()
    y = node.execute(x)
    rec.require(np.array_equal(before, x), 'input-modified', what + ': execution changed the input array')
    rec.require(y.ndim == 2 and y.shape == (len(x), node.output_dim), 'announced-dim',
                lambda: '%s: announced output dimension %r, returned shape %r' % (what, node.output_dim, y.shape))
    rec.require(y.dtype == node.dtype, 'output-type', lambda: '%s: returned %s, node works with %s' % (what, y.dtype, node.dtype))
    return y


# ------------------------------------------------------------------ monomials

@CHECK.each([(t, t) for t in ('d', 'f', 'i', 'l')], quick=30, thorough=60 * 4)
def polynomial(rng, rec, dt):
    degree, dim = rng.randint(1, 8), rng.randint(1, 9)
    while comb(dim + degree, degree) > 1500:
        degree, dim = rng.randint(1, 8), rng.randint(1, 9)
    rows = rng.randint(1, 9)
    integer = dt in 'il'
    x = rng.randint(-3, 4, (rows, dim)).astype(dt) if integer else (rng.randn(rows, dim) * 10. ** rng.randint(-2, 3)).astype(dt)
    if integer and rng.rand() < .5:
        # all monomials just fit into the type
        big = int((2. ** (30 if np.dtype(dt).itemsize == 4 else 62)) ** (1. / degree))
        x = rng.randint(-big, big + 1, (rows, dim)).astype(dt)
    x = layout(rng, x)
    how = rng.randint(4)
    kw = {}
    if rng.rand() < .4:
        kw['dtype'] = dt
    if rng.rand() < .4:
        kw['input_dim'] = dim
    if degree == 2 and how < 3:
        node = N.QuadraticExpansionNode(**kw)
        what = 'QuadraticExpansionNode'
    else:
        node = N.PolynomialExpansionNode(degree, **kw)
        what = 'PolynomialExpansionNode(%d)' % degree
    what += ' dim %d type %s' % (dim, dt)
    true_dim = comb(dim + degree, degree) - 1
    if 'input_dim' in kw:
        rec.require(node.output_dim == true_dim, 'announced-dim', lambda: '%s announces %r, true %d' % (what, node.output_dim, true_dim))
    g = N.PolynomialExpansionNode.execute.__globals__
    rec.require(node.expanded_dim(dim) == true_dim, 'expanded-dim', lambda: '%s.expanded_dim -> %r, true %d' % (what, node.expanded_dim(dim), true_dim))
    rec.event('counts')
    y = run(rec, node, x, what)
    rec.require(y.shape[1] == true_dim, 'expanded-dim', lambda: '%s returned %d columns, true %d' % (what, y.shape[1], true_dim))
    big = x.astype(object if integer else np.longdouble)
    col = 0
    for d in range(1, degree + 1):
        for c in itertools.combinations_with_replacement(range(dim), d):
            want = big[:, c[0]]
            for j in c[1:]:
                want = want * big[:, j]
            if integer:
                ok = all(int(a) == b for a, b in zip(y[:, col], want))
            else:
                ok = np.all(np.abs(y[:, col] - want) <= tol(dt) * np.abs(want) + 1e-300)
            rec.require(ok, 'monomial', lambda: '%s: column %d is not the monomial %r (%r, true %r)' % (what, col, c, y[:3, col], want[:3]))
            col += 1
            rec.event('monomials')
    rec.case(('poly', what, tuple(sorted(kw))))


@CHECK.scenario(quick=20, thorough=40 * 4)
def counting(rng, rec):
    """nmonomials and expanded_dim are the exact combinatorial counts."""
    from mdp.nodes import expansion_nodes  # noqa
    for _ in range(30):
        degree, dim = rng.randint(1, 25), rng.randint(1, 60)
        g = N.PolynomialExpansionNode.expanded_dim.__globals__
        a, b = g['nmonomials'](degree, dim), g['expanded_dim'](degree, dim)
        rec.require(a == comb(dim + degree - 1, degree), 'count', lambda: 'nmonomials(%d, %d) = %r' % (degree, dim, a))
        rec.require(b == comb(dim + degree, degree) - 1, 'count', lambda: 'expanded_dim(%d, %d) = %r' % (degree, dim, b))
        node = N.RecursiveExpansionNode(degree, with0=bool(rng.rand() < .5))
        c = node.expanded_dim(dim)
        rec.require(c == comb(dim + degree, degree) - (not node.with0), 'count',
                    lambda: 'RecursiveExpansionNode(%d, with0=%r).expanded_dim(%d) = %r' % (degree, node.with0, dim, c))
        rec.event('counts')
    for node in (N.PolynomialExpansionNode(3), N.GeneralExpansionNode([lambda x: x]), N.RecursiveExpansionNode(2),
                 N.GrowingNeuralGasExpansionNode()):
        try:
            node.set_output_dim(rng.randint(2, 9))
            rec.require(False, 'output-dim-accepted', '%s accepted an explicit output dimension' % type(node).__name__)
        except mdp.NodeException:
            rec.event('refused')
    rec.case(('count', degree, dim))


# ------------------------------------------------------------------ radial basis functions

@CHECK.each([(k, k) for k in ('scalar', 'scalars', 'matrix', 'matrices')], quick=30, thorough=60 * 4)
def radial(rng, rec, kind):
    n, dim, rows = rng.randint(1, 7), rng.randint(1, 6), rng.randint(1, 12)
    dt = 'f' if rng.rand() < .3 else 'd'
    typ = ['float', 'int', 'list', 'f4'][rng.randint(4)]
    explicit = rng.rand() < .4
    centers = rng.randn(n, dim) * 2
    if typ == 'int':
        centers = np.round(centers).astype('i')

    def spd():
        b = rng.randn(dim, dim)
        s = np.dot(b, b.T) + np.eye(dim) * rng.uniform(.5, 2)
        if typ == 'int':
            s = np.round(s + 2 * np.eye(dim) * dim).astype('i')
            s = (s + s.T) // 2
        return s
    if kind == 'scalar':
        sizes = rng.uniform(.2, 4) if typ != 'int' else int(rng.randint(1, 5))
    elif kind == 'scalars':
        sizes = rng.uniform(.2, 4, n) if typ != 'int' else rng.randint(1, 5, n)
    elif kind == 'matrix':
        sizes = spd()
    else:
        sizes = np.array([spd() for _ in range(n)])
    if typ == 'f4':
        centers = centers.astype('f')
        sizes = np.float32(sizes)
    c64, s64 = np.array(centers, 'd'), np.array(sizes, 'd')
    given = (centers, sizes)
    if typ == 'list':
        given = (centers.tolist(), sizes.tolist() if isinstance(sizes, np.ndarray) else sizes)
    kw = {'dtype': dt} if explicit else {}
    keep = (np.array(given[0]), np.array(given[1]))
    node = N.RBFExpansionNode(given[0], given[1], **kw)
    what = 'RBFExpansionNode %s (%s, dtype %r)' % (kind, typ, kw.get('dtype'))
    rec.require(node.input_dim == dim and node.output_dim == n, 'announced-dim', lambda: '%s: dims %r' % (what, (node.input_dim, node.output_dim)))
    x = layout(rng, np.concatenate([rng.randn(rows, dim) * rng.choice([.5, 2., 20.]), c64[:1]]).astype(dt))
    y = run(rec, node, x, what)
    y2 = run(rec, node, x, what)
    rec.require(np.array_equal(y, y2), 'repeat', what + ': a second execution differs')
    rec.require(np.array_equal(keep[0], np.array(given[0])) and np.array_equal(keep[1], np.array(given[1])), 'arguments-modified',
                what + ': the centers or sizes of the user changed')
    X = np.array(x, 'd')
    for j in range(n):
        d = X - c64[j]
        if kind.startswith('scalar'):
            e = (d ** 2).sum(1) / (s64 if kind == 'scalar' else s64[j])
            cond = 1
        else:
            S = s64 if kind == 'matrix' else s64[j]
            e = np.einsum('ij,ij->i', d, np.linalg.solve(S, d.T).T)
            cond = np.linalg.cond(S)
        want = np.exp(-.5 * e)
        single = 'f' in (dt if explicit else 'd', dt) or typ == 'f4'
        eps = (2e-5 if single else 1e-9) * cond
        ok = np.abs(y[:, j] - want) <= eps * (1 + e) * want + eps * 1e-2
        rec.require(np.all(ok), 'rbf', lambda: '%s: column %d is not the Gaussian around its center (%r, true %r)' % (what, j, y[:4, j], want[:4]))
        rec.event('rbf_values', len(x))
    # the arrays of the user do not govern the node later
    if isinstance(given[0], np.ndarray):
        given[0][:] += 5
        if isinstance(given[1], np.ndarray):
            given[1][...] *= 3
        rec.require(np.array_equal(node.execute(x), y), 'arguments-shared', what + ': changing the arrays given at construction changed the node')
    # wrong sizes are refused
    bad = None
    if kind == 'scalars':
        bad = np.ones(n + 1)
    elif kind == 'matrices':
        bad = np.array([np.eye(dim)] * (n + 1))
    elif kind == 'matrix':
        bad = np.eye(dim + 1)
    if bad is not None:
        try:
            N.RBFExpansionNode(c64, bad)
            rec.require(False, 'wrong-sizes-accepted', '%s accepted sizes of shape %r for %d centers of dimension %d' % (what, bad.shape, n, dim))
        except mdp.NodeException:
            rec.event('refused')
    rec.case(('rbf', kind, typ, n, dim, explicit, dt))


@CHECK.scenario(quick=20, thorough=40 * 4)
def gas(rng, rec):
    """The gas-based expansion places Gaussians on the gas nodes with the documented sizes."""
    dim, rows = rng.randint(1, 5), rng.randint(60, 200)
    dt = 'f' if rng.rand() < .3 else 'd'
    limit = rng.randint(2, 12)
    x = rng.randn(rows, dim).astype(dt)
    kw = dict(max_nodes=limit, lambda_=rng.randint(5, 25), max_age=rng.randint(3, 30))
    if rng.rand() < .4:
        kw['start_poss'] = [x[0].copy(), x[1].copy()]
    if rng.rand() < .3:
        kw['input_dim'] = dim
    if rng.rand() < .3:
        kw['dtype'] = dt
    node = N.GrowingNeuralGasExpansionNode(**kw)
    cut = rng.randint(1, rows)
    node.train(x[:cut])
    node.train(x[cut:])
    node.stop_training()
    pos = np.array(node.get_nodes_position(), 'd')
    rec.require(node.output_dim == len(pos) <= max(limit, 2), 'gas-dim', lambda: 'gas expansion: %r outputs, %d nodes, at most %d' % (node.output_dim, len(pos), limit))
    q = rng.randn(8, dim).astype(dt)
    y = run(rec, node, q, 'GrowingNeuralGasExpansionNode')
    for i, nd in enumerate(node.graph.nodes):
        nb = [e.head if e.tail is nd else e.tail for e in node.graph.edges if nd in (e.head, e.tail)]
        s = np.mean([((np.array(nd.data.pos, 'd') - np.array(m.data.pos, 'd')) ** 2).sum() for m in nb])
        e = ((q.astype('d') - pos[i]) ** 2).sum(1) / s
        rec.require(np.allclose(y[:, i], np.exp(-.5 * e), rtol=1e-3 if dt == 'f' else 1e-8, atol=tol(dt)), 'gas-rbf',
                    lambda: 'gas expansion: column %d is not the Gaussian of its gas node' % i)
        rec.event('rbf_values', len(q))
    rec.case(('gas', dim, limit, tuple(sorted(kw))))


# ------------------------------------------------------------------ recursive

def one_dim(kind, k, x):
    """k-th function of the family at x (float64)."""
    co = [0.] * k + [1.]
    if kind == 'standard_poly':
        return x ** k
    if kind == 'legendre_poly':
        return legendre.legval(x, co)
    if kind == 'chebyshev_poly':
        return chebyshev.chebval(x, co)
    if kind == 'legendre_rational':
        return legendre.legval((x - 1) / (x + 1), co)
    if kind == 'custom':      # Hermite-like user family
        h = [np.ones_like(x), 2 * x]
        for m in range(2, k + 1):
            h.append(2 * x * h[-1] - 2 * (m - 1) * h[-2])
        return h[k]
    raise ValueError(kind)


def hermite_init(result, x, pos, cur_var):
    result[:, pos] = 2. * x[:, cur_var]
    result[:, pos + 1] = 2. * x[:, cur_var] * result[:, pos] - 2.
    return pos + 2, 3, pos


def hermite_rec(result, x, special, n, cur_var, pos):
    return 2. * x[:, cur_var] * result[:, pos - 1] - 2. * (n - 1) * result[:, pos - 2]


FAMILIES = {'standard_poly': (-1.5, 1.5), 'legendre_poly': (-1., 1.), 'chebyshev_poly': (-1., 1.), 'legendre_rational': (0., 6.),
            'custom': (-1., 1.)}


def functions(degree, dim):
    """Exponents in the order of the node: constant, each variable alone, then the products as the simplex is walked."""
    out = [(0,) * dim]
    for v in range(dim):
        for k in range(1, degree + 1):
            out.append(tuple(k if i == v else 0 for i in range(dim)))
    todo = [(i * degree, i, 1) for i in range(1, dim)] if degree > 1 else []
    while todo:
        off, lead, leaddeg = todo.pop(0)
        for v in range(lead):
            for d in range(1, degree - leaddeg + 1):
                length = degree + 1 - leaddeg - d
                start = len(out)
                for t in range(length):
                    e = list(out[1 + off + t])
                    e[v] += d
                    out.append(tuple(e))
                if length > 1:
                    todo.append((start - 1, v, leaddeg + d))
    return out


def judge_recursive(rec, y, x, kind, degree, with0, dt, what):
    dim = x.shape[1]
    exps = functions(degree, dim)
    assert len(set(exps)) == len(exps) == comb(dim + degree, degree)
    if not with0:
        exps = exps[1:]
    rec.require(y.shape[1] == len(exps), 'recursive-count', lambda: '%s: %d columns, %d functions' % (what, y.shape[1], len(exps)))
    X = np.array(x, 'd')
    table = [[one_dim(kind, k, X[:, v]) for k in range(degree + 1)] for v in range(dim)]
    for c, e in enumerate(exps):
        want = np.ones(len(X))
        for v in range(dim):
            want = want * table[v][e[v]]
        scale = 1 + np.abs(want).max(initial=0)
        if kind == 'custom':
            scale *= 4. ** degree
        rec.require(np.allclose(y[:, c], want, rtol=0, atol=tol(dt, 50 * scale * (degree + 1) ** 2)), 'recursive-function',
                    lambda: '%s: column %d is not the product of orders %r (%r, true %r)' % (what, c, e, y[:3, c], want[:3]))
        rec.event('recursive_values', len(X))


@CHECK.each([(f, f) for f in sorted(FAMILIES)], quick=30, thorough=60 * 4)
def recursive(rng, rec, kind):
    degree, dim = rng.randint(0, 8), rng.randint(1, 6)
    while comb(dim + degree, degree) > 800:
        degree, dim = rng.randint(1, 8), rng.randint(1, 6)
    if rng.rand() < .1:
        degree, dim = rng.randint(20, 60), 1
    dt = 'f' if rng.rand() < .3 else 'd'
    if degree > 10:
        dt = 'd'
    with0 = bool(rng.rand() < .5)
    check = bool(rng.rand() < .5)
    lo, hi = FAMILIES[kind]
    x = layout(rng, rng.uniform(lo, hi, (rng.randint(1, 9), dim)).astype(dt))
    recf = (hermite_init, hermite_rec, -1, 1) if kind == 'custom' else kind
    kw = {}
    if rng.rand() < .4:
        kw['input_dim'] = dim
    if rng.rand() < .4:
        kw['dtype'] = dt
    what = 'RecursiveExpansionNode(%d, %s, with0=%r, dim %d%s)' % (degree, kind, with0, dim, ', input_dim given' if 'input_dim' in kw else '')
    node = N.RecursiveExpansionNode(degree, recf=recf, check=check, with0=with0, **kw)
    y = run(rec, node, x, what)
    judge_recursive(rec, y, x, kind, degree, with0, dt, what)
    if kind != 'standard_poly' and degree:
        # data clearly outside of the domain: refused when checking, computed otherwise
        bad = x.copy()
        where = rng.randint(len(x)), rng.randint(dim)
        bad[where] = -(.2 + rng.rand()) + lo if (kind == 'legendre_rational' or rng.rand() < .5) else hi + .2 + rng.rand()
        strict = N.RecursiveExpansionNode(degree, recf=recf, check=True, with0=with0)
        try:
            strict.execute(bad)
            rec.require(False, 'domain-unchecked', lambda: '%s: checking accepted %r' % (what, bad[where]))
        except mdp.NodeException:
            rec.event('domain_checks')
        edge = x.copy()
        edge[where] = lo if rng.rand() < .5 else hi
        strict.execute(edge)
        rec.event('domain_checks')
    rec.case(('rec', kind, degree, dim, with0, tuple(sorted(kw))))


@CHECK.each([(f, f) for f in ('standard_poly', 'legendre_poly', 'legendre_rational', 'chebyshev_poly', 'below', 'box')], quick=30, thorough=60 * 4)
def normalizing(rng, rec, kind):
    """The documented transformation, then the recursive expansion."""
    degree, dim = rng.randint(1, 5), rng.randint(1, 4)
    dt = 'f' if rng.rand() < .2 else 'd'
    with0 = bool(rng.rand() < .5)
    if kind == 'below':       # unbounded below
        lower, upper, fam = -np.inf, 2., 'custom'
        recf = (hermite_init, hermite_rec, lower, upper)
    elif kind == 'box':
        lower = float(rng.randint(-4, 4))
        upper = lower + float(rng.randint(1, 5))
        fam = 'custom'
        recf = (hermite_init, hermite_rec, lower, upper)
    else:
        recf = fam = kind
        lower, upper = {'standard_poly': (-np.inf, np.inf), 'legendre_poly': (-1, 1), 'legendre_rational': (0, np.inf),
                        'chebyshev_poly': (-1, 1)}[kind]
    node = N.NormalizingRecursiveExpansionNode(degree, recf=recf, check=bool(rng.rand() < .7), with0=with0)
    where = rng.randint(4)
    if where == 0:            # data already inside
        lo = lower if np.isfinite(lower) else upper - 3 if np.isfinite(upper) else -1.5
        hi = upper if np.isfinite(upper) else lo + 3
        x = rng.uniform(lo + .01 * (hi - lo), hi - .01 * (hi - lo), (30, dim))
    else:
        x = rng.randn(30, dim) * [.1, 1., 3.][where - 1] + rng.uniform(-4, 4, dim)
    x = x.astype(dt)
    cuts = sorted(set(rng.randint(1, 30, rng.randint(0, 4)).tolist()))
    for part in np.split(x, cuts):
        node.train(part)
    node.stop_training()
    # the documented transformation of the training data
    X = x.astype('d')
    if not np.isfinite(lower) and not np.isfinite(upper):
        T = X
        how = 'identity'
    elif not np.isfinite(lower):
        T = X - np.maximum(X.max(0) - upper, 0)
        how = 'translated'
    elif not np.isfinite(upper):
        T = X + np.maximum(lower - X.min(0), 0)
        how = 'translated'
    elif X.max() < upper and X.min() > lower:
        T = X
        how = 'inside'
    else:
        spread, mid = X.max() - X.min(), (X.max() + X.min()) / 2
        f = min(1., (upper - lower) / spread)
        T = (X - mid) * f + (upper + lower) / 2.
        how = 'scaled' if f < 1 else 'moved'
    what = 'NormalizingRecursiveExpansionNode(%d, %s, with0=%r), data %s' % (degree, kind, with0, how)
    y = run(rec, node, x, what)
    rec.event('normalized')
    deg_scale = 1 + np.abs(X).max()
    if dt == 'f' and deg_scale ** degree > 1e4:
        raise Skip('float32 powers of large values')
    loose = 30. * deg_scale if dt == 'f' else deg_scale
    # compare each function with its value on the transformed data
    exps = functions(degree, dim)[0 if with0 else 1:]
    rec.require(y.shape[1] == len(exps), 'recursive-count', lambda: '%s: %d columns, %d functions' % (what, y.shape[1], len(exps)))
    for c, e in enumerate(exps):
        want = np.ones(len(T))
        for v in range(dim):
            want = want * one_dim(fam, e[v], T[:, v])
        scale = 1 + np.abs(want).max()
        rec.require(np.allclose(y[:, c], want, rtol=0, atol=tol(dt, 200 * loose * scale * 4 ** degree)), 'normalized-function',
                    lambda: '%s: column %d is not the product of orders %r on the transformed data (%r, true %r)' % (what, c, e, y[:3, c], want[:3]))
        rec.event('recursive_values', len(T))
    # execution of a part gives the same rows
    part = slice(3, 3 + rng.randint(1, 10))
    rec.require(np.allclose(node.execute(x[part]), y[part], rtol=1e-4 if dt == 'f' else 1e-9, atol=tol(dt, 10 * deg_scale ** degree)), 'normalized-rows',
                what + ': rows executed alone differ')
    rec.case(('norm', kind, degree, dim, how, with0))


# ------------------------------------------------------------------ general

def identity(x):
    return x


def cube(x):
    return np.absolute(x) ** 3


def norm2(x):
    return ((x ** 2).sum(axis=1) ** 0.5).reshape((-1, 1))


def pairs(x):
    return x[:, :-1] * x[:, 1:] if x.shape[1] > 1 else x * x


def constant(x):
    return np.ones((len(x), 2))


def signed_exp(x):
    return np.sign(x) * np.abs(x) ** .8


FUNCS = [identity, cube, norm2, pairs, constant, signed_exp]


@CHECK.scenario(quick=40, thorough=160 * 4)
def general(rng, rec):
    dim, rows = rng.randint(1, 7), rng.randint(1, 9)
    dt = 'f' if rng.rand() < .3 else 'd'
    funcs = [FUNCS[i] for i in rng.randint(0, len(FUNCS), rng.randint(1, 5))]
    x = layout(rng, rng.randn(rows, dim).astype(dt))
    kw = {}
    if rng.rand() < .4:
        kw['input_dim'] = dim
    if rng.rand() < .4:
        kw['dtype'] = dt
    node = N.GeneralExpansionNode(funcs, **kw)
    what = 'GeneralExpansionNode(%s)' % ','.join(f.__name__ for f in funcs)
    wants = [f(np.array(x, 'd')) for f in funcs]
    y = run(rec, node, x, what)
    sizes = list(node.output_sizes(dim))
    rec.require(sizes == [w.shape[1] for w in wants], 'output-sizes', lambda: '%s: announced sizes %r, true %r' % (what, sizes, [w.shape[1] for w in wants]))
    rec.require(node.expanded_dim(dim) == y.shape[1] == sum(sizes), 'expanded-dim', lambda: '%s: expanded_dim %r, returned %d' % (what, node.expanded_dim(dim), y.shape[1]))
    want = np.concatenate(wants, axis=1)
    rec.require(np.allclose(y, want, rtol=1e-4 if dt == 'f' else 1e-10, atol=tol(dt)), 'general', what + ': the result is not the concatenation of the functions')
    rec.event('general_columns', y.shape[1])
    rec.case(('general', what, dim, dt))


@CHECK.scenario(quick=16, thorough=60 * 4)
def preimage(rng, rec):
    """The pseudo-inverse reproduces the expanded values of invertible expansions.

    It needs scipy.optimize; the name of the numerical backend is all that keeps the function from using the installed
    scipy, so it is set to 'scipy' during the call."""
    try:
        import scipy.optimize  # noqa
    except ImportError:
        raise Skip('no scipy')
    dim, rows = rng.randint(1, 5), rng.randint(1, 6)
    mode = ['first', 'near', 'random', 'intarray'][rng.randint(4)]
    # started far away, a descent may end in a local minimum of non-monotonous functions
    more = FUNCS[1:5] if mode in ('first', 'near') else [identity, constant]
    funcs = [identity] + [more[i] for i in rng.randint(0, len(more), rng.randint(0, 3))]
    node = N.GeneralExpansionNode(funcs)
    x = rng.randn(rows, dim)
    y = node.execute(x)
    hint = {'first': True, 'near': x + .1 * rng.randn(rows, dim), 'random': False, 'intarray': np.round(x).astype('i')}[mode]
    g = mdp.utils.invert_exp_funcs2.__globals__
    old = g['numx_description']
    what = 'pseudo_inverse of %s, hint %s' % (','.join(f.__name__ for f in funcs), mode)
    keep_y, keep_h = y.copy(), np.array(hint)
    try:
        if old != 'scipy':
            try:
                node.pseudo_inverse(y, use_hint=hint)
                rec.require(False, 'preimage-refusal', what + ': worked without the scipy backend')
            except mdp.MDPException:
                rec.event('refused')
        g['numx_description'] = 'scipy'
        np.random.seed(rng.randint(2 ** 31))
        back = node.pseudo_inverse(y, use_hint=hint)
        # values that are integers in an integer array are a legal expanded point as well
        whole = np.round(3 * x)
        yi = node.execute(whole)
        only = len(funcs) == 1
        backi = node.pseudo_inverse(yi.astype('i') if only else yi, use_hint=True)
    finally:
        g['numx_description'] = old
    rec.require(np.array_equal(keep_y, y) and np.array_equal(keep_h, np.array(hint)), 'input-modified', what + ': the arguments changed')
    rec.require(back.shape == x.shape and np.allclose(back, x, atol=1e-3), 'preimage', lambda: '%s: %r instead of %r' % (what, back, x))
    rec.require(np.allclose(backi, whole, atol=1e-3), 'preimage', lambda: '%s: %r instead of %r' % (what, backi, whole))
    rec.event('preimages')
    rec.case(('pre', what, dim))
