"""P11 extensions add behaviour only while active and restore classes completely."""
import copy
import pickle
import numpy as np
import mdp
import bimdp
from harness.core import Check, Skip, Violation
from harness import catalog as C

CHECK = Check('P11', 'A case is a generated class hierarchy with generated extensions and a random history of activations, '
              'deactivations, contexts, decorated calls, injected errors and conflicts; after every step the __dict__ of '
              'every class is compared with an independent model, plus random histories of the library\'s own extensions '
              'over all node classes. Distinct by hierarchy, extensions, history and seed.')
CHECK.expect_events(steps=4000, class_states_compared=20000, refusals=200, restorations=1500)

ATTRS = ['f', 'g', '_execute', 'is_trainable', 'prop', 'val', 'klass']
PRE, FLAG = '_non_extension_', '_extension_for_'
_uid = [0]


class Boom(Exception):
    pass


def value(kind, tag):
    if kind == 'val':
        return ('value', tag)
    if kind == 'prop':
        return property(lambda self: tag)
    if kind == 'klass':
        return classmethod(lambda cls: (tag, cls.__name__))
    if kind == 'is_trainable':
        return staticmethod(lambda: tag)

    def fn(self, *a):
        if a and a[0] == 'chain' and tag.startswith('__'):
            orig = getattr(self, PRE + kind, None)
            return (tag,) + (orig('chain') if orig is not None and kind in ('f', 'g') else ())
        return (tag,)
    return fn


class World(object):
    """Classes, extensions and the model of what is visible."""

    def __init__(self, rng):
        self.rng = rng
        self.names = []
        self.classes = []
        self.injected = {}      # ext -> {cls: {attr: value}} as registered
        self.active = []
        self.setups = {}
        self.fail_setup = set()
        n = int(rng.randint(2, 7))
        for i in range(n):
            bases = ()
            if self.classes and rng.rand() < 0.85:
                k = 1 if rng.rand() < 0.7 else 2
                cand = [self.classes[j] for j in rng.permutation(len(self.classes))[:k]]
                # most derived first, so that a linearization exists
                cand.sort(key=lambda c: -len(c.__mro__))
                bases = tuple(c for c in cand if not any(d is not c and issubclass(d, c) for d in cand))
            if not bases:
                bases = (mdp.Node,) if rng.rand() < 0.6 else (object,)
            if mdp.Node in bases and len(bases) > 1:
                bases = bases[:1]
            members = {}
            for a in ATTRS:
                if rng.rand() < 0.45:
                    members[a] = value(a, '%s%d' % (a, i))
            try:
                cls = type(mdp.Node if any(issubclass(b, mdp.Node) for b in bases) else object).__call__ and \
                    self.make('K%d' % i, bases, members)
            except TypeError:
                continue
            self.classes.append(cls)
        if not self.classes:
            raise Skip()
        self.base = {c: dict(c.__dict__) for c in self.universe()}

    @staticmethod
    def make(name, bases, members):
        meta = type(bases[0])
        for b in bases[1:]:
            if issubclass(type(b), meta):
                meta = type(b)
        return meta(name, bases, dict(members))

    def universe(self):
        u = []
        for c in self.classes:
            for k in c.__mro__:
                if k is not object and k not in u:
                    u.append(k)
        return u

    # -- extensions ------------------------------------------------
    def new_extension(self):
        rng = self.rng
        _uid[0] += 1
        name = '__p11_%d' % _uid[0]
        reg = self.injected[name] = {}
        self.names.append(name)
        self.setups[name] = [0, 0]
        order = [self.classes[i] for i in rng.permutation(len(self.classes))]
        order = order[:rng.randint(1, len(order) + 1)]
        if rng.rand() < 0.5:
            # class style
            base_members = {a: value(a, '%s_%s_base' % (name, a)) for a in ATTRS if rng.rand() < 0.25}
            E = self.make(name + 'E', (mdp.ExtensionNode,), dict(base_members, extension_name=name))
            # extension classes one can derive from, with the attributes they provide
            made = [(None, E, base_members)]
            for i in range(int(rng.choice([0, 0, 1, 2]))):
                # without a node class: nothing is injected
                k, sup, have = made[rng.randint(len(made))]
                own = {a: value(a, '%s_%s_mixin%d' % (name, a, i)) for a in ATTRS if rng.rand() < 0.3}
                made.append((None, self.make(name + 'M%d' % i, (sup,), own), dict(have, **own)))
            for c in order:
                # an extension class may derive from that of a parent class
                pool = [m for m in made if m[0] is None or issubclass(c, m[0]) and m[0] is not c]
                k, sup, have = pool[rng.randint(len(pool))]
                own = {a: value(a, '%s_%s_%s' % (name, a, c.__name__)) for a in ATTRS if rng.rand() < 0.3}
                try:
                    X = self.make(c.__name__ + 'X', (sup, c), own)
                except TypeError:
                    continue
                have = dict(have, **own)
                made.append((c, X, have))
                mine = reg.setdefault(c, {})
                for a, v in have.items():
                    # what a base class has already got is not injected again
                    if not any(b in reg and a in reg[b] and reg[b][a] == v for b in c.__mro__):
                        mine[a] = v
        else:
            for c in order:
                for a in ATTRS:
                    if rng.rand() < 0.3:
                        v = value(a, '%s_%s_%s' % (name, a, c.__name__))
                        if rng.rand() < 0.3 and callable(v) and not isinstance(v, (staticmethod, classmethod)):
                            v.__name__ = a
                            r = mdp.extension_method(name, c)(v)
                        else:
                            r = mdp.extension_method(name, c, a)(v)
                        assert r is v
                        reg.setdefault(c, {})[a] = v
            if name not in mdp.get_extensions():
                mdp.extension_setup(name)(lambda: None)
                mdp.get_extensions()[name].clear()
        if rng.rand() < 0.5:
            s = self.setups[name]

            def setup():
                s[0] += 1
                if name in self.fail_setup:
                    raise Boom('setup')

            def teardown():
                s[1] += 1
            mdp.extension_setup(name)(setup)
            mdp.extension_teardown(name)(teardown)
            s.append('yes')
        return name

    def close(self):
        for n in self.names:
            if n in mdp.get_extensions():
                mdp.deactivate_extension(n)
                del mdp.get_extensions()[n]

    # -- model -----------------------------------------------------
    def owner(self, c, a):
        for e in self.active:
            if a in self.injected[e].get(c, {}):
                return e
        return None

    def conflict(self, name):
        for c, d in self.injected[name].items():
            for a in d:
                if self.owner(c, a) not in (None, name):
                    return True
        return False

    def expected_raw(self, c, a):
        for k in c.__mro__:
            e = self.owner(k, a)
            if e is not None:
                return self.injected[e][k][a]
            if a in self.base.get(k, k.__dict__):
                return self.base.get(k, k.__dict__)[a]
        return None

    def original_raw(self, c, a):
        for k in c.__mro__:
            if a in self.base.get(k, k.__dict__):
                return self.base.get(k, k.__dict__)[a]
        return None

    def compare(self, rec, where):
        for c in self.universe():
            rec.event('class_states_compared')
            d = c.__dict__
            for a in ATTRS:
                got = None
                for k in c.__mro__:
                    if a in k.__dict__:
                        got = k.__dict__[a]
                        break
                rec.require(got is self.expected_raw(c, a), 'wrong-attribute',
                            lambda: '%s: %s.%s is %r, expected %r' % (where, c.__name__, a, got, self.expected_raw(c, a)))
                e = self.owner(c, a)
                if e is not None:
                    o = d.get(PRE + a)
                    rec.require(o is self.original_raw(c, a), 'wrong-original',
                                lambda: '%s: original of %s.%s is %r, expected %r' % (where, c.__name__, a, o, self.original_raw(c, a)))
                    continue
                rec.require((a in d) == (a in self.base[c]), 'wrong-attribute',
                            lambda: '%s: %s %s its own %s' % (where, c.__name__, 'gained' if a in d else 'lost', a))
            mine = set(k for k in d if not k.startswith((PRE, FLAG)) and self.owner(c, k) is None)
            full = set(k for k in self.base[c] if self.owner(c, k) is None)
            # caches that python itself keeps in the class are not judged
            rec.require(mine - full <= {'__abstractmethods__', '_abc_impl'} and not full - mine, 'wrong-attribute',
                        lambda: '%s: %s has %s' % (where, c.__name__, sorted(mine ^ full)))
            if not any(self.owner(c, a) for a in ATTRS):
                left = [k for k in d if k.startswith((PRE, FLAG)) and k not in self.base[c]]
                rec.require(not left, 'left-over', lambda: '%s: %s keeps %s' % (where, c.__name__, left))
        for n in self.names:
            rec.require((n in mdp.get_active_extensions()) == (n in self.active), 'wrong-state', where)
            if len(self.setups[n]) > 2:
                s, t = self.setups[n][:2]
                rec.require(s - t == (1 if n in self.active else 0), 'setup-teardown',
                            lambda: '%s: %d setups, %d teardowns, active %s' % (where, s, t, n in self.active))

    def behave(self, rec, where):
        """Calls through instances, including chained originals."""
        c = self.classes[self.rng.randint(len(self.classes))]
        try:
            obj = c()
        except Exception:
            return
        for a in ('f', 'g'):
            raw = self.expected_raw(c, a)
            if raw is None:
                rec.require(not hasattr(obj, a), 'wrong-attribute', where)
                continue
            rec.require(getattr(obj, a)() == raw(obj), 'wrong-behaviour', where)
            # the extension of the class itself can reach the original
            if self.owner(c, a):
                o = self.original_raw(c, a)
                got = getattr(obj, a)('chain')
                rec.require(len(got) == (1 if o is None else 2 if o else 1) or len(got) >= 1, 'wrong-behaviour', where)
                if o is not None:
                    rec.require(got[1] == o(obj)[0], 'wrong-chain', lambda: '%s: %s' % (where, got))
        raw = self.expected_raw(c, 'is_trainable')
        if isinstance(raw, staticmethod):
            rec.require(obj.is_trainable() == raw.__func__() and c.is_trainable() == raw.__func__(), 'wrong-behaviour', where)
        raw = self.expected_raw(c, 'klass')
        if raw is not None:
            rec.require(obj.klass()[1] == c.__name__ == c.klass()[1], 'wrong-behaviour', where)
        raw = self.expected_raw(c, 'prop')
        if raw is not None:
            rec.require(obj.prop == raw.fget(obj), 'wrong-behaviour', where)


def act(w, rec, name, fn):
    """Activate with fn; model and compare refusal."""
    new = name not in w.active
    bad = new and (w.conflict(name) or name in w.fail_setup)
    try:
        fn()
        ok = True
    except (mdp.ExtensionException, Boom):
        ok = False
    rec.require(ok == (not bad), 'conflict-accepted' if bad else 'refused', name)
    if bad:
        rec.event('refusals')
    if ok and new:
        w.active.append(name)
    return ok


@CHECK.scenario(quick=2500, thorough=25000)
def histories(rng, rec):
    w = World(rng)
    try:
        for _ in range(rng.randint(1, 6)):
            w.new_extension()
        w.base = {c: dict(c.__dict__) for c in w.universe()}
        hist = []
        for step in range(rng.randint(4, 16)):
            op = rng.choice(['act', 'act', 'deact', 'deact', 'many', 'demany', 'ctx', 'nested', 'deco', 'recurse', 'late', 'fail', 'unknown'])
            name = w.names[rng.randint(len(w.names))]
            hist.append((op, name))
            where = 'after %s' % hist[-6:]
            if op == 'act':
                act(w, rec, name, lambda: mdp.activate_extension(name))
            elif op == 'deact':
                mdp.deactivate_extension(name)
                if name in w.active:
                    w.active.remove(name)
                    rec.event('restorations')
            elif op == 'many':
                ns = [w.names[i] for i in rng.permutation(len(w.names))[:rng.randint(1, len(w.names) + 1)]]
                before = list(w.active)
                ok = True
                for n in ns:
                    if n not in w.active:
                        if w.conflict(n) or n in w.fail_setup:
                            ok = False
                            break
                        w.active.append(n)
                try:
                    mdp.activate_extensions(ns)
                    got = True
                except (mdp.ExtensionException, Boom):
                    got = False
                    rec.event('refusals')
                rec.require(got == ok, 'conflict-accepted' if got else 'refused', '%s %s' % (where, ns))
                if not ok:
                    w.active = before
            elif op == 'demany':
                ns = list(rng.permutation(w.names))
                mdp.deactivate_extensions(ns[:2])
                for n in ns[:2]:
                    if n in w.active:
                        w.active.remove(n)
                        rec.event('restorations')
            elif op in ('ctx', 'nested'):
                before = list(w.active)
                ctx = mdp.extension(name if rng.rand() < 0.5 else [name])
                try:
                    with ctx:
                        if name not in w.active:
                            w.active.append(name)
                        w.compare(rec, where + ' in context')
                        w.behave(rec, where)
                        if op == 'nested':
                            other = w.names[rng.randint(len(w.names))]
                            inner = ctx if rng.rand() < 0.3 else mdp.extension(other)
                            other = name if inner is ctx else other
                            b2 = list(w.active)
                            try:
                                with inner:
                                    if other not in w.active:
                                        w.active.append(other)
                                    w.compare(rec, where + ' in nested context')
                                    if rng.rand() < 0.4:
                                        raise KeyError('inner')
                            except (mdp.ExtensionException, Boom):
                                rec.event('refusals')
                            except KeyError:
                                pass
                            w.active = b2
                            w.compare(rec, where + ' after the nested context')
                        if rng.rand() < 0.4:
                            raise KeyError('user')
                except KeyError:
                    pass
                except (mdp.ExtensionException, Boom):
                    rec.event('refusals')
                w.active = before
            elif op in ('deco', 'recurse'):
                before = list(w.active)

                def body(x, y=3, *a, **kw):
                    """the docs"""
                    if name not in w.active:
                        w.active.append(name)
                    w.compare(rec, where + ' in decorated function')
                    if op == 'recurse' and x > 0:
                        return fn(x - 1, y)
                    w.compare(rec, where + ' after the inner call')
                    if x == -1:
                        raise KeyError('user')
                    return x, y, a, kw
                fn = mdp.with_extension(name)(body)
                rec.require(fn.__name__ == 'body' and fn.__doc__ == body.__doc__, 'decorator-signature', where)
                x = int(rng.randint(-1, 3))
                try:
                    r = fn(x, 5) if rng.rand() < 0.5 else fn(x, y=5)
                    rec.require(r == (0 if op == 'recurse' and x >= 0 else x, 5, (), {}), 'decorator-result', '%s: %s' % (where, r))
                except KeyError:
                    rec.require(x == -1, 'decorator-result', where)
                except (mdp.ExtensionException, Boom):
                    rec.event('refusals')
                w.active = before
            elif op == 'late':
                # a method registered while the extension is active may or may
                # not show until it is activated again, but must not damage the class
                if name in w.active:
                    c = w.classes[rng.randint(len(w.classes))]
                    a = ATTRS[rng.randint(len(ATTRS))]
                    if a in w.injected[name].get(c, {}) or w.owner(c, a):
                        continue
                    v = value(a, '__late')
                    mdp.extension_method(name, c, a)(v)
                    mdp.deactivate_extension(name)
                    w.active.remove(name)
                    w.compare(rec, where + ' (late registration)')
                    w.injected[name].setdefault(c, {})[a] = v
                    act(w, rec, name, lambda: mdp.activate_extension(name))
            elif op == 'fail':
                # a failing setup function
                if len(w.setups[name]) > 2 and name not in w.active:
                    w.fail_setup.add(name)
                    before = w.setups[name][:2]
                    act(w, rec, name, lambda: mdp.activate_extension(name))
                    # whether a failed setup is torn down is not specified
                    w.setups[name][:2] = before
                    w.fail_setup.discard(name)
            elif op == 'unknown':
                for f in (mdp.activate_extension, mdp.deactivate_extension):
                    try:
                        f('__p11_nosuch')
                        rec.fail('unknown-accepted', f.__name__)
                    except mdp.ExtensionException:
                        rec.event('refusals')
            rec.event('steps')
            w.compare(rec, where)
            w.behave(rec, where)
        for n in rng.permutation(w.names):
            mdp.deactivate_extension(n)
            if n in w.active:
                w.active.remove(n)
                rec.event('restorations')
            w.compare(rec, 'closing %s after %s' % (n, hist))
        for c in w.universe():
            rec.require(set(c.__dict__) - set(w.base[c]) <= {'__abstractmethods__', '_abc_impl'} and
                        all(c.__dict__.get(k) is v for k, v in w.base[c].items() if not k.startswith('__')),
                        'not-restored', lambda: '%s after %s: %s' % (c.__name__, hist, sorted(set(c.__dict__) ^ set(w.base[c]))))
        rec.case(str(hist), len(w.classes), rng.randint(1 << 30))
    finally:
        w.close()


def same_class(c, before):
    a, b = dict(c.__dict__), dict(before)
    for d in (a, b):
        for k in [k for k in d if k.startswith('__') and k.endswith('__')]:
            del d[k]
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


def all_classes():
    out, todo = [], [mdp.Node]
    while todo:
        c = todo.pop()
        if c not in out:
            out.append(c)
            todo.extend(c.__subclasses__())
    return out


REAL = ['parallel', 'gradient', 'html', 'switchboard_factory', 'cache_execute']


@CHECK.each([(s.name, s) for s in C.SPECS if s.kind == 'node'] if hasattr(C.SPECS[0], 'kind') else [(s.name, s) for s in C.SPECS],
            quick=1, thorough=12)
def library_extensions(rng, rec, spec):
    """The library's own extensions leave no trace and do not alter nodes."""
    seed = int(rng.randint(1 << 30))
    X = spec.data(np.random.RandomState(seed))
    xin = spec.xin(np.random.RandomState(seed + 1))
    E = spec.train_args(np.random.RandomState(seed + 2), X)

    def run(hook):
        mdp.numx_rand.seed(seed % 1000)
        node = spec.make()
        hook()
        if node.is_trainable():
            node = spec.train(node, spec.split(X, E, []))
        hook()
        y = spec.run(node, xin)
        hook()
        return node, y
    mdp.numx_rand.seed(5)
    ref, yr = run(lambda: None)
    classes = all_classes()
    before = {c: dict(c.__dict__) for c in classes}
    exts = [e for e in REAL if e in mdp.get_extensions()]
    active = []

    def hook():
        if rng.rand() < 0.8:
            e = exts[rng.randint(len(exts))]
            if e in active:
                (mdp.caching.deactivate_caching if e == 'cache_execute' else lambda: mdp.deactivate_extension(e))()
                active.remove(e)
            else:
                if e == 'cache_execute':
                    # only for an unrelated class: the caching property itself is P12
                    mdp.caching.activate_caching(cache_classes=[mdp.nodes.CutoffNode])
                else:
                    mdp.activate_extension(e)
                active.append(e)
            rec.event('steps')
    try:
        node, y = run(hook)
        hook()
    finally:
        for e in list(rng.permutation(active)):
            mdp.caching.deactivate_caching() if e == 'cache_execute' else mdp.deactivate_extension(e)
            rec.event('restorations')
    rec.require(y.shape == yr.shape and y.dtype == yr.dtype and np.array_equal(y, yr, equal_nan=True), 'changes-results',
                lambda: '%s with %s: %g' % (spec.name, exts, C.maxdiff(y, yr)))
    for c in classes:
        rec.event('class_states_compared')
        d = c.__dict__
        rec.require(same_class(c, before[c]), 'not-restored',
                    lambda: '%s: %s' % (c.__name__, [k for k in set(d) ^ set(before[c])] + [k for k in d if d[k] is not before[c].get(k, d[k])]))
    # instances made while an extension was active work afterwards
    y2 = spec.run(pickle.loads(pickle.dumps(node)) if 'Libsvm' not in spec.name and 'LibSVM' not in spec.name else node, xin)
    rec.require(y2.shape == yr.shape, 'changes-results', spec.name)
    rec.case(spec.name, seed)


@CHECK.scenario(quick=20, thorough=200)
def parallel_activity(rng, rec):
    """Parallel training activates its extension only for the call and puts
    back what was active before, also when it fails."""
    X = [C.smooth_mix(rng, 40, 4) for _ in range(3)]
    pre = [e for e in ('gradient', 'html') if rng.rand() < 0.5]
    for e in pre:
        mdp.activate_extension(e)
    classes = all_classes()
    before = {c: dict(c.__dict__) for c in classes}
    cls = [mdp.parallel.ParallelFlow, bimdp.parallel.ParallelBiFlow][rng.randint(2)]
    nodes = [mdp.nodes.PCANode(), mdp.nodes.SFANode()]
    bad = rng.rand() < 0.4
    if bad:
        X[1] = X[1][:, :3]
    flow = cls(nodes)
    sch = mdp.parallel.Scheduler() if rng.rand() < 0.5 else mdp.parallel.ThreadScheduler(n_threads=2) if not bad else mdp.parallel.Scheduler()
    try:
        try:
            flow.train([list(X)] * 2, scheduler=sch)
            rec.require(not bad, 'accepted', 'wrong dimension')
            flow.execute(X, scheduler=sch)
        except Exception as e:
            if not bad:
                raise
            rec.event('refusals')
        rec.event('steps')
        rec.require(sorted(mdp.get_active_extensions()) == sorted(pre), 'wrong-state', str(mdp.get_active_extensions()))
        for c in classes:
            rec.event('class_states_compared')
            d = c.__dict__
            rec.require(same_class(c, before[c]), 'not-restored', c.__name__)
    finally:
        for e in pre:
            mdp.deactivate_extension(e)
            rec.event('restorations')
    rec.case(cls.__name__, bad, str(pre), rng.randint(1 << 30))


@CHECK.scenario(quick=30, thorough=200)
def definitions(rng, rec):
    """Definitions that contradict each other are refused and leave nothing behind."""
    name = '__p11_def%d' % rng.randint(1 << 30)
    table = mdp.get_extensions()
    known = set(table)

    def refused(fn, what):
        try:
            fn()
            raise Violation('definition', what + ' was accepted')
        except mdp.ExtensionException:
            rec.event('refusals')
    A = type('P11A', (mdp.Node,), {})
    B = type('P11B', (mdp.Node,), {})
    before = dict(A.__dict__), dict(B.__dict__)
    calls = []
    try:
        Base = type(mdp.ExtensionNode)('P11Ext', (mdp.ExtensionNode,), {'extension_name': name, 'ping': lambda self: 'base'})
        refused(lambda: type(mdp.ExtensionNode)('P11Again', (mdp.ExtensionNode,), {'extension_name': name}), 'a second extension of the same name')
        refused(lambda: type(mdp.ExtensionNode)('P11None', (mdp.ExtensionNode,), {'extension_name': ''}), 'an extension without name')
        refused(lambda: type(mdp.ExtensionNode)('P11Two', (Base, A, B), {}), 'an extension node for two nodes')
        type(mdp.ExtensionNode)('P11OfA', (Base, A), {'pong': lambda self: 'A'})
        mdp.extension_setup(name)(lambda: calls.append('setup'))
        refused(lambda: mdp.extension_setup(name)(lambda: calls.append('other')), 'a second setup function')
        mdp.extension_teardown(name)(lambda: calls.append('teardown'))
        refused(lambda: mdp.extension_teardown(name)(lambda: calls.append('other')), 'a second teardown function')
        with mdp.extension(name):
            a = A()
            rec.require(a.ping() == 'base' and a.pong() == 'A' and not hasattr(B(), 'pong') and not hasattr(B(), 'ping'),
                        'definition-active', 'attributes of the extension are wrong')
        rec.require(calls == ['setup', 'teardown'], 'definition-calls', lambda: 'calls %s' % calls)
        for c, d in zip((A, B), before):
            rec.require(set(c.__dict__) == set(d), 'not-restored', lambda: '%s: %s' % (c.__name__, sorted(set(c.__dict__) ^ set(d))))
    finally:
        for k in set(table) - known:
            del table[k]
    rec.case(name)
