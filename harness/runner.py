"""Runs the scenarios of one check over worker processes."""
import faulthandler
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import signal
import shutil
import sys
import tempfile
import time

from . import core

NPROC = int(os.environ.get('VERIF_PROCS', '8'))
# The quick tier runs every scenario quick_scale(pid) times its base count; what lies
# beyond the base counts is dropped when SOFT seconds have passed (slow machine).
SLOW = ('P01', 'P02', 'P03', 'P04', 'P06', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P29', 'P30')


def quick_scale(pid):
    return max(1, int(os.environ.get('VERIF_QUICK_SCALE') or (4 if pid in SLOW else 12)))


# The thorough tier does the same with thorough_scale().
def thorough_scale():
    return max(1, int(os.environ.get('VERIF_THOROUGH_SCALE') or 20))


SOFT = {'quick': 120.0, 'thorough': float(os.environ.get('VERIF_THOROUGH_SOFT', '400'))}
BUDGET = {'quick': 600.0, 'thorough': float(os.environ.get('VERIF_BUDGET', '3000'))}


def _worker(conn, check, vseed, tier, logpath, scratch):
    # quiet stdout/stderr; keep a file for stack dumps
    log = open(logpath, 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(log.fileno(), 2)
    os.setpgid(0, 0)
    faulthandler.enable(log)
    faulthandler.register(signal.SIGUSR1, file=log, all_threads=True)
    tempfile.tempdir = scratch
    os.chdir(scratch)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        si, idx = job
        res = core.run_task(check.scenarios[si], idx, vseed, tier, check.pid)
        conn.send(res)
    conn.close()
    os._exit(0)


class Worker(object):
    def __init__(self, n, check, vseed, tier, scratch):
        self.logpath = os.path.join(scratch, 'worker%d.log' % n)
        wscratch = os.path.join(scratch, 'w%d' % n)
        os.makedirs(wscratch, exist_ok=True)
        ctx = mp.get_context('fork')
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(target=_worker, args=(child, check, vseed, tier,
                                                      self.logpath, wscratch))
        self.proc.start()
        child.close()
        self.job = None
        self.started = None

    def send(self, job):
        self.job = job
        self.started = time.time()
        if job is not None:
            self.conn.send(job)

    def kill(self, dump=False):
        stack = ''
        pid = self.proc.pid
        if dump and self.proc.is_alive():
            try:
                os.kill(pid, signal.SIGUSR1)
                time.sleep(1.0)
            except OSError:
                pass
        try:
            with open(self.logpath) as f:
                stack = f.read()[-4000:]
        except OSError:
            pass
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.join(10)
        return stack


def run_check(pid, tier, vseed, only=None, replay=None):
    t0 = time.time()
    sys.path.insert(0, core.VERIF)
    mod = importlib.import_module('checks.%s' % pid.lower())
    check = mod.CHECK
    known = load_known(pid)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return _run(check, known, tier, vseed, only, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_known(pid):
    """Entries of known_findings.json for this property: {key: text}."""
    path = os.path.join(core.VERIF, 'known_findings.json')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f).get('findings', []):
                if e['property'] == pid:
                    out.append(e)
    return out


def match_known(known, scenario, key):
    for e in known:
        if e['key'] == key and (e.get('scenario') in (None, scenario)):
            return e
    return None


def _run(check, known, tier, vseed, only, replay, scratch, t0):
    jobs = []
    if replay is not None:
        for si, s in enumerate(check.scenarios):
            if s.name == replay['scenario']:
                jobs.append((si, replay['index']))
        vseed = replay['verif_seed']
        tier = replay.get('tier', tier)
    else:
        # interleave scenarios so that every one is reached early
        scale = quick_scale(check.pid)
        counts = [(min(max(s.quick, s.thorough), s.quick * scale) if tier == 'quick'
                   else s.thorough * thorough_scale()) for s in check.scenarios]
        for idx in range(max(counts)):
            for si, s in enumerate(check.scenarios):
                if only and only not in s.name:
                    continue
                if idx < counts[si]:
                    jobs.append((si, idx))
    if not jobs:
        print('no scenario selected')
        return 2
    budget = BUDGET[tier]
    base = [s.quick if tier == 'quick' else s.thorough for s in check.scenarios]
    n = min(NPROC, len(jobs))
    workers = [Worker(i, check, vseed, tier, scratch) for i in range(n)]
    nspawn = n
    queue = list(reversed(jobs))
    results, crashes, hangs = [], [], []
    skipped, dropped = 0, False
    per_scn_fail = {}
    while True:
        for w in workers:
            if w.job is None and queue:
                if time.time() - t0 > budget:
                    skipped += len(queue)
                    queue = []
                    break
                if time.time() - t0 > SOFT[tier] and queue[-1][1] >= base[queue[-1][0]]:
                    queue = [j for j in queue if j[1] < base[j[0]]]
                    dropped = True
                    if not queue:
                        break
                w.send(queue.pop())
        busy = [w for w in workers if w.job is not None]
        if not busy:
            break
        waitables = [w.conn for w in busy] + [w.proc.sentinel for w in busy]
        ready = mpc.wait(waitables, timeout=1.0)
        now = time.time()
        for i, w in enumerate(list(workers)):
            if w.job is None:
                continue
            got = False
            if w.conn in ready:
                try:
                    results.append(w.conn.recv())
                    got = True
                    w.job = None
                except (EOFError, OSError):
                    pass
            if not got and (w.conn in ready or w.proc.sentinel in ready
                            or not w.proc.is_alive()):
                w.proc.join(5)
                code = w.proc.exitcode
                stack = w.kill()
                crashes.append((w.job, code, stack))
                workers[workers.index(w)] = Worker(nspawn, check, vseed, tier, scratch)
                nspawn += 1
            elif not got and now - w.started > check.scenarios[w.job[0]].timeout:
                stack = w.kill(dump=True)
                hangs.append((w.job, now - w.started, stack))
                workers[workers.index(w)] = Worker(nspawn, check, vseed, tier, scratch)
                nspawn += 1
    for w in workers:
        try:
            w.conn.send(None)
        except (OSError, BrokenPipeError):
            pass
    for w in workers:
        w.proc.join(5)
        if w.proc.is_alive():
            w.kill()
        else:
            try:
                os.killpg(w.proc.pid, signal.SIGKILL)
            except OSError:
                pass
    # ---------------------------------------------------------- verdict
    failures = []
    for r in results:
        for key, msg in r['failures']:
            failures.append((r['scenario'], r['index'], key, msg))
    for job, code, stack in crashes:
        failures.append((check.scenarios[job[0]].name, job[1], 'process-died',
                         'worker process died with code %s\n%s' % (code, stack)))
    for job, sec, stack in hangs:
        failures.append((check.scenarios[job[0]].name, job[1], 'no-progress',
                         'no progress after %.0f s\n%s' % (sec, stack)))
    nscn = {}
    for r in results:
        d = nscn.setdefault(r['scenario'], [0, 0])
        d[0] += 1
        d[1] += r.get('numeric', 0)
    for k, (tot, num) in nscn.items():
        if tot >= 8 and num > 0.4 * tot:
            failures.append((k, 0, 'spurious-failures', '%d of %d ordinary workloads were '
                             'refused with a numerical error' % (num, tot)))
    new, seen_known = [], {}
    for f in failures:
        e = match_known(known, f[0], f[2])
        if e is not None:
            seen_known[e['key']] = e
        else:
            new.append(f)
    events = {}
    cases = set()
    samples = []
    per_scn = {}
    evals = 0
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        cases.update(r['cases'])
        evals += r['evaluations']
        if len(samples) < 12 and r['samples']:
            if not any(s['scenario'] == r['scenario'] for s in samples):
                samples.append(r['samples'][0])
        d = per_scn.setdefault(r['scenario'], [0, 0, 0.0])
        d[0] += 1
        d[1] += r['evaluations']
        d[2] += r['wall']
    starved = []
    if replay is None and not only:
        for s in check.scenarios:
            want = s.quick if tier == 'quick' else s.thorough
            if want and per_scn.get(s.name, [0, 0])[1] == 0 and not any(
                    f[0] == s.name for f in failures):
                starved.append(s.name)
        for k, v in check.must_see.items():
            if events.get(k, 0) < v:
                starved.append('event:%s=%d<%d' % (k, events.get(k, 0), v))
    wall = time.time() - t0
    evidence = dict(
        property=check.pid, tier=tier, seed=int(vseed), level=check.level,
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(cases), rule=check.rule,
            samples=samples, events_observed=events,
            tasks_run=len(results), tasks_skipped_for_time=skipped,
            extra_rounds_cut_short=dropped,
            crashes=len(crashes), hangs=len(hangs), worker_processes=n,
            scenarios=dict((k, dict(tasks=v[0], evaluations=v[1],
                                    cpu_s=round(v[2], 2)))
                           for k, v in sorted(per_scn.items()))),
        assumptions=check.assumptions,
        wall_s=round(wall, 2), violations=len(new))
    if replay is None and not only:
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(core.VERIF, 'evidence', check.pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    for e in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (check.pid, e['what']))
    print('%s tier=%s seed=%s: %d tasks, %d evaluations, %d distinct cases, '
          '%d oracle decisions, %.1fs' % (check.pid, tier, vseed, len(results), evals,
                                          len(cases), events.get('oracle_decisions', 0), wall))
    if new:
        rdir = os.path.join(core.VERIF, 'replays', check.pid)
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for scn, idx, key, msg in new:
            if (scn, key) in shown or len(shown) >= 8:
                continue
            shown.add((scn, key))
            safe = ''.join(c if c.isalnum() else '_' for c in '%s-%s' % (scn, key))[:100]
            path = os.path.join(rdir, '%s-%d.json' % (safe, idx))
            with open(path, 'w') as f:
                json.dump(dict(property=check.pid, scenario=scn, index=idx,
                               verif_seed=int(vseed), tier=tier, key=key,
                               message=msg), f, indent=1)
            print('  [%s #%d] %s: %s' % (scn, idx, key, msg.strip()[:3000] if replay else msg.split('  ---')[0].strip()[:260]))
            print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1
    if starved:
        print('INCONCLUSIVE: monitors never reached: %s' % ', '.join(starved[:20]))
        return 2
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
    sys.stdout.flush()
    return run_check(a.pid.upper(), a.tier, a.seed, a.only, replay)
