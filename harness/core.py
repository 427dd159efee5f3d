"""Shared run-time-monitoring harness.

A check is a module checks/pNN.py holding scenarios.  A scenario is a function
``fn(rng, rec)`` that drives the real code under /repo with generated
workloads, records what it observes (``rec.event``), and lets monitors judge
the observations (``rec.fail`` / ``rec.require``).  The runner distributes
(scenario, index) tasks over forked worker processes, gives each one a seed
derived from VERIF_SEED, watches for crashes and hangs, aggregates what was
observed and writes the evidence file.
"""
import hashlib
import json
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


class Skip(Exception):
    """The generated case is not in the property's domain."""


def stable_hash(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).hexdigest()
    return int(h[:12], 16)


class Recorder(object):
    """Collects what one task observed."""

    def __init__(self, scenario, tier):
        self.scenario = scenario
        self.tier = tier
        self.events = {}
        self.cases = set()
        self.samples = []
        self.failures = []
        self.evaluations = 0

    # -- observation -------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def case(self, *key, **kw):
        """Declare one evaluated, non-trivial case (distinct by key)."""
        self.evaluations += 1
        k = stable_hash(self.scenario, *key)
        self.cases.add(k)
        if len(self.samples) < 2:
            self.samples.append(dict(scenario=self.scenario,
                                     case=[_short(x) for x in key]))

    # -- judgement ---------------------------------------------------
    def fail(self, key, msg):
        """Record a violation and go on."""
        if len(self.failures) < 20:
            self.failures.append((str(key), str(msg)[:2000]))

    def require(self, cond, key, msg=''):
        self.event('oracle_decisions')
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(key, msg or key)

    def check(self, cond, key, msg=''):
        """As require, but keeps going."""
        self.event('oracle_decisions')
        if not cond:
            if callable(msg):
                msg = msg()
            self.fail(key, msg or key)
        return bool(cond)


def _short(x):
    s = x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)
    if isinstance(s, str) and len(s) > 200:
        s = s[:200] + '...'
    return s


class Scenario(object):
    def __init__(self, fn, quick, thorough, timeout, name=None):
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.timeout = timeout
        self.name = name or fn.__name__


class Check(object):
    """A property's scenarios."""

    def __init__(self, pid, rule, level='exploration', assumptions=()):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.scenarios = []
        self.must_see = {}

    def scenario(self, quick=10, thorough=None, timeout=120, name=None):
        if thorough is None:
            thorough = quick * 12
        def deco(fn):
            self.scenarios.append(Scenario(fn, quick, thorough, timeout, name))
            return fn
        return deco

    def each(self, items, quick=1, thorough=None, timeout=120, name=None):
        """One scenario per item; fn(rng, rec, item)."""
        if thorough is None:
            thorough = quick * 12
        def deco(fn):
            for label, item in items:
                def run(rng, rec, _i=item):
                    return fn(rng, rec, _i)
                self.scenarios.append(
                    Scenario(run, quick, thorough, timeout,
                             '%s[%s]' % (name or fn.__name__, label)))
            return fn
        return deco

    def expect_events(self, **kinds):
        """Minimum number of monitor events below which a run is inconclusive."""
        self.must_see.update(kinds)


# --------------------------------------------------------------------------
def seed_everything(seed):
    import numpy
    random.seed(seed)
    numpy.random.seed(seed % (2**32))
    return numpy.random.RandomState((seed * 2654435761 + 12345) % (2**32))


def run_task(scn, index, vseed, tier, pid):
    seed = stable_hash(pid, scn.name, index, vseed)
    rng = seed_everything(seed)
    rec = Recorder(scn.name, tier)
    rec.index = index
    rec.seed = seed
    t0 = time.time()
    numeric = 0
    try:
        scn.fn(rng, rec)
    except Skip as e:
        rec.event('skipped_cases')
        if e.args and e.args[0] == 'numeric':
            rec.event('numeric_skips')
            numeric = 1
    except Violation as e:
        rec.fail(e.key, str(e.msg) + '\n  ---\n' + _tb_tail())
    except Exception as e:
        if is_numeric(e):
            rec.event('numeric_skips')
            numeric = 1
        else:
            rec.fail('unexpected-%s' % type(e).__name__,
                     'unexpected exception: %s\n  ---\n%s' % (e, traceback.format_exc()[-3000:]))
    _cleanup_mdp()
    return dict(scenario=scn.name, index=index, events=rec.events,
                evaluations=rec.evaluations, cases=list(rec.cases),
                samples=rec.samples, failures=rec.failures, numeric=numeric,
                wall=time.time() - t0)


NUMERIC = ('singular', 'negative eigenvalue', 'converge', 'covariance matrix may be',
           'eigenvalue')


def is_numeric(e):
    """Documented data-dependent failure of a numerical method (ill-conditioned
    random data): the case is outside the property's domain.  The runner turns
    an unusual rate of these into a violation."""
    mdp = sys.modules.get('mdp')
    if mdp is None:
        return False
    if isinstance(e, mdp.FlowException):
        last = [l for l in str(e).split('\n') if 'NodeException:' in l or 'SymeigException:' in l]
        return any(w in l.lower().replace('notconverge', 'converge') for w in NUMERIC for l in last)
    if type(e) not in (mdp.NodeException, mdp.utils.SymeigException):
        return False
    return any(w in str(e).lower().replace('notconverge', 'converge') for w in NUMERIC)


def _tb_tail():
    return '\n'.join(traceback.format_exc().strip().split('\n')[-8:])[:1500]


def _cleanup_mdp():
    mdp = sys.modules.get('mdp')
    if mdp is None:
        return
    try:
        for ext in list(mdp.get_active_extensions()):
            try:
                mdp.deactivate_extension(ext)
            except Exception:
                pass
    except Exception:
        pass
