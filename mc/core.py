# -*- coding: utf-8 -*-
"""Bounded exhaustive exploration driver shared by every check.

A check module (checks/pNN.py) defines

    PROPERTY = 'P01'
    LEVEL = 'exploration' | 'model_checking' | 'fault_enumeration'
    RULE = 'how cases are made / what makes one non-trivial'
    ASSUMPTIONS = [...]
    FAMILIES = [Family(...), ...]

A *family* is an enumerable bounded space: ``cases(tier)`` yields every
JSON-able case of the space (simplest first) and ``run(case)`` executes the
real code on one case and raises ``Violation`` when the oracle disagrees.
``run`` returns an *observation* (any repr()able value, digested to count the
number of distinct observed outcomes), or ``TRIVIAL`` when the case exercised
nothing.

The driver shards the space over the cores, never samples it, and reports
whether the enumeration was completed.
"""
import argparse
import hashlib
import importlib
import json
from multiprocessing.connection import wait
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
TRIVIAL = object()


class Violation(Exception):
    """The oracle disagrees with the real code on one execution."""

    def __init__(self, message, signature=None, detail=None):
        Exception.__init__(self, message)
        self.message = message
        self.signature = signature
        self.detail = detail


class HarnessError(Exception):
    """The harness itself is broken (never a verdict about the code)."""


class CaseTimeout(BaseException):
    pass


class Family(object):

    def __init__(self, name, cases, run, limit=60, weight=1, batch=None,
                 serial=False):
        self.name = name
        self.cases = cases
        self.run = run
        self.limit = limit          # seconds allowed for one execution
        self.weight = weight
        self.serial = serial        # run in one process only


def digest(obj):
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode('utf-8', 'backslashreplace')
    return hashlib.blake2b(obj, digest_size=8).digest()


def expect(cond, message, signature=None, **detail):
    if not cond:
        raise Violation(message, signature, detail)


def expect_equal(got, want, what, signature=None):
    if got != want:
        raise Violation('%s: got %s, expected %s' %
                        (what, short(got), short(want)), signature)


def short(x, n=400):
    s = repr(x)
    if len(s) > n:
        s = s[:n] + '...(%d chars)' % len(s)
    return s


def load_known():
    """-> list of (property, signature, text) of recorded findings"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN, encoding='utf-8') as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            fields = line[len('finding:'):].strip().split(None, 2)
            pid = fields[0].split('=', 1)[1]
            sig = fields[1].split('=', 1)[1]
            out.append((pid, sig, fields[2] if len(fields) > 2 else ''))
    return out


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(family, case):
    """-> ('ok', obs) | ('trivial', None) | ('bad', message, signature)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(family.limit)
    try:
        try:
            obs = family.run(case)
        finally:
            signal.alarm(0)
    except Violation as e:
        return ('bad', e.message, e.signature)
    except HarnessError:
        raise
    except CaseTimeout:
        return ('bad', 'execution did not finish within %d s' % family.limit,
                None)
    except RecursionError as e:
        return ('bad', 'RecursionError: %s' % e, None)
    except MemoryError as e:
        return ('bad', 'MemoryError: %s' % e, None)
    except SystemExit as e:
        return ('bad', 'unexpected SystemExit(%r)\n%s'
                % (e.code, traceback.format_exc(limit=-6)), None)
    except Exception as e:
        return ('bad', 'unexpected %s: %s\n%s'
                % (type(e).__name__, e, traceback.format_exc(limit=-6)),
                None)
    if obs is TRIVIAL:
        return ('trivial', None)
    return ('ok', obs)


def _worker(args):
    modname, fidx, tier, widx, nworkers, deadline, maxbad = args
    mod = importlib.import_module(modname)
    fam = mod.FAMILIES[fidx]
    setup = getattr(mod, 'worker_setup', None)
    if setup:
        setup()
    n = nontrivial = 0
    keys = set()
    outcomes = set()
    bad = []
    samples = []
    complete = True
    extra = {}
    try:
        for i, case in enumerate(fam.cases(tier)):
            if i % nworkers != widx:
                continue
            if time.time() > deadline:
                complete = False
                break
            n += 1
            r = run_one(fam, case)
            if r[0] == 'ok':
                k = digest(json.dumps(case, sort_keys=True))
                if k not in keys:
                    keys.add(k)
                    nontrivial += 1
                outcomes.add(digest(r[1]))
                if len(samples) < 2:
                    samples.append({'family': fam.name, 'case': case,
                                    'observed': short(r[1], 160)})
            elif r[0] == 'bad':
                bad.append((case, r[1], r[2]))
                if len([b for b in bad if b[2] is None]) >= maxbad:
                    complete = False
                    break
                if len(bad) > 5000:
                    complete = False
                    break
        stats = getattr(mod, 'STATS', None)
        if stats:
            extra = dict(stats)
    finally:
        teardown = getattr(mod, 'worker_teardown', None)
        if teardown:
            teardown()
    return dict(family=fam.name, n=n, nontrivial=nontrivial,
                outcomes=outcomes, bad=bad, samples=samples,
                complete=complete, extra=extra)


def _task_process(task, path):
    try:
        r = _worker(task)
    except HarnessError:
        traceback.print_exc()
        r = None
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.rename(path + '.tmp', path)


def run_tasks(tasks, jobs, hard_deadline):
    """run each task in a forked process of its own, `jobs` at a time"""
    scratch = os.environ.get('VERIF_SCRATCH') or '/tmp'
    ctx = multiprocessing.get_context('fork')
    pending = list(enumerate(tasks))
    running = []
    while pending or running:
        while pending and len(running) < jobs:
            idx, task = pending.pop(0)
            path = os.path.join(scratch, 'task-%d-%d' % (os.getpid(), idx))
            p = ctx.Process(target=_task_process, args=(task, path))
            sys.stdout.flush()
            sys.stderr.flush()
            p.start()
            running.append((p, task, path))
        wait([p.sentinel for p, _, _ in running], timeout=1)
        still = []
        for p, task, path in running:
            if p.is_alive():
                if time.time() > hard_deadline:
                    p.kill()
                    p.join()
                else:
                    still.append((p, task, path))
                    continue
            p.join()
            fam = importlib.import_module(task[0]).FAMILIES[task[1]]
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    r = pickle.load(f)
                os.unlink(path)
                if r is None:
                    raise HarnessError('harness error in %s' % fam.name)
                yield r
            else:
                yield dict(family=fam.name, n=0, nontrivial=0,
                           outcomes=set(), samples=[], complete=False,
                           extra={},
                           bad=[({'worker': task[3]}, 'the process running '
                                 'the code died (exit code %r)' % p.exitcode,
                                 None)])
        running = still


def main(modname, argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER',
                                                         'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--family')
    parser.add_argument('--jobs', type=int, default=int(
        os.environ.get('VERIF_JOBS', '8')))
    parser.add_argument('--cap', type=float, default=None)
    args = parser.parse_args(argv)
    tier = args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    mod = importlib.import_module(modname)
    pid = mod.PROPERTY

    if args.replay:
        with open(args.replay, encoding='utf-8') as f:
            rep = json.load(f)
        for fam in mod.FAMILIES:
            if fam.name == rep['family']:
                setup = getattr(mod, 'worker_setup', None)
                if setup:
                    setup()
                try:
                    r = run_one(fam, rep['case'])
                finally:
                    teardown = getattr(mod, 'worker_teardown', None)
                    if teardown:
                        teardown()
                print('replay:', r[0])
                if r[0] == 'bad':
                    print(r[1])
                    print('VIOLATION property=%s replay=%s'
                          % (pid, args.replay))
                    return 1
                return 0
        raise SystemExit('no such family: %s' % rep['family'])

    t0 = time.time()
    cap = args.cap or (420 if tier == 'quick' else 780)
    deadline = t0 + cap
    tasks = []
    for fidx, fam in enumerate(mod.FAMILIES):
        if args.family and fam.name != args.family:
            continue
        jobs = 1 if fam.serial else args.jobs
        for w in range(jobs):
            tasks.append((modname, fidx, tier, w, jobs, deadline, 3))

    pre = getattr(mod, 'prepare', None)
    if pre:
        pre(tier)

    fams = {}
    bad = []
    samples = []
    outcomes = {}
    extra_total = {}
    for r in run_tasks(tasks, args.jobs, deadline + 60):
        if True:
            d = fams.setdefault(r['family'], dict(
                evaluations=0, distinct_nontrivial=0, complete=True))
            d['evaluations'] += r['n']
            d['distinct_nontrivial'] += r['nontrivial']
            d['complete'] = d['complete'] and r['complete']
            outcomes.setdefault(r['family'], set()).update(r['outcomes'])
            for case, msg, sig in r['bad']:
                bad.append((r['family'], case, msg, sig))
            if len([s for s in samples
                    if s['family'] == r['family']]) < 2:
                samples.extend(r['samples'][:1])
            for k, v in r['extra'].items():
                if isinstance(v, set):
                    extra_total.setdefault(k, set()).update(v)
                else:
                    extra_total[k] = extra_total.get(k, 0) + v
    for name, o in outcomes.items():
        fams[name]['distinct_outcomes'] = len(o)

    known = [(sig, text) for p, sig, text in load_known() if p == pid]
    known_sigs = dict(known)
    new = []
    hit = set()
    for fam, case, msg, sig in bad:
        if sig is not None and sig in known_sigs:
            hit.add(sig)
        else:
            new.append((fam, case, msg, sig))
    for sig in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known_sigs[sig]))

    new.sort(key=lambda b: (len(json.dumps(b[1])), json.dumps(b[1])))
    replay = None
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for i, (fam, case, msg, sig) in enumerate(new[:5]):
        path = os.path.join(VERIF, 'evidence', 'replay',
                            '%s-%d.json' % (pid, i))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': pid, 'family': fam, 'case': case,
                       'message': msg, 'signature': sig,
                       'command': 'cd /verif && ./check %s --replay %s'
                       % (pid, path)}, f, indent=1)
        print('--- %s/%s: %s' % (pid, fam, short(case, 600)))
        print(msg[:3000])
        if replay is None:
            replay = path

    evaluations = sum(d['evaluations'] for d in fams.values())
    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': sum(d['distinct_nontrivial']
                                   for d in fams.values()),
        'rule': mod.RULE,
        'samples': samples[:12],
        'exhaustive': all(d['complete'] for d in fams.values()),
        'families': fams,
        'known_findings_seen': len(hit),
    }
    for k, v in extra_total.items():
        coverage[k] = len(v) if isinstance(v, set) else v
    evidence = {
        'property': pid,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    if mod.LEVEL == 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            coverage.setdefault(k, 0)
    path = os.path.join(VERIF, 'evidence', '%s.json' % pid)
    tmp = path + '.tmp'
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    os.replace(tmp, path)

    print('%s %s: %d executions, %d non-trivial, %s, %.1fs'
          % (pid, tier, evaluations, coverage['distinct_nontrivial'],
             'exhaustive' if coverage['exhaustive'] else 'CAPPED',
             evidence['wall_s']))
    for name in sorted(fams):
        print('   %-28s %s' % (name, json.dumps(fams[name])))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0
