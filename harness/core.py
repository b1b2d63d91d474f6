"""Generated-input search: registry, runner, shrinking, replay, evidence.

A property is decided by one or more *sub-tests*.  Each has a Hypothesis
strategy that builds a plain JSON-serialisable case, and a function that runs
the real code on that case against an oracle.  Every sub-test runs in its own
process; a failing case is shrunk by Hypothesis and becomes the replay file.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import unittest
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

# Hypothesis lives in the tooling environment; everything else must come from
# the environment of the code under test, hence the append.
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

CASE_CPU = 60.       # s of CPU a single case may take (normal: ms to a few s)
HANG_CPU = 150.      # s of CPU after which the parent declares a hang
SHRINK_WALL = {'quick': 45., 'thorough': 180.}
WALL = {'quick': 420., 'thorough': 6 * 3600.}   # whole property


class Violation(Exception):
    """The property does not hold on the case."""


class Known(Violation):
    """A violation that may be listed in known_findings.txt under ``key``."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Reject(Exception):
    """The case is out of the domain of the property (counted, not run)."""


class Hang(Exception):
    """CPU allowance of a case exceeded."""


SUBTESTS = {}       # property -> list of SubTest


class SubTest(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule,
                 budget, cases):
        self.prop, self.name = prop, name
        self.strategy, self.fn = strategy, fn
        self.quick, self.thorough = quick, thorough
        self.rule, self.budget = rule, budget
        self.cases = cases


def subtest(prop, name, strategy=None, quick=200, thorough=None, rule='',
            budget=None, cases=None):
    """Register a sub-test.

    strategy : Hypothesis strategy (or zero-argument callable giving one)
    cases : a finite list of cases to be enumerated completely instead
    budget : wall clock for the quick tier; on expiry the search just stops
    """
    def deco(fn):
        SUBTESTS.setdefault(prop, []).append(
            SubTest(prop, name, strategy, fn, quick,
                    thorough if thorough is not None else quick * 25,
                    rule, budget, cases))
        return fn
    return deco


class Ctx(object):
    """Handed to the check functions."""

    def __init__(self):
        self._nontrivial = True
        self.labels = {}

    def nontrivial(self, flag):
        self._nontrivial = self._nontrivial and bool(flag)

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1


def _digest(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True).encode()).digest()[:10]


def _short(case, n=700):
    s = json.dumps(case)
    return case if len(s) <= n else s[:n] + ' ...'


def known_keys(prop):
    out = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as h:
            for line in h:
                line = line.strip()
                if line.startswith('known: '):
                    head, _, text = line[7:].partition(' :: ')
                    d = dict(x.split('=', 1) for x in head.split())
                    if d.get('property') == prop:
                        out[d['key']] = text
    except OSError:
        pass
    return out


def _on_prof(signum, frame):
    raise Hang('more than %g s of CPU' % CASE_CPU)


def run_case(st, case, ctx):
    """Run a single case, turning whatever goes wrong into an exception."""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            st.fn(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(st, tier, seed, tmp):
    """Body of the process running a sub-test.  Writes its result as JSON."""
    sys.path.append(TOOLS)
    # Chatter of the code under test stays out of the way
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    errfile = os.open(os.path.join(tmp, st.name + '.err'),
                      os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(errfile, 2)
    known = known_keys(st.prop)
    res = {'name': st.name, 'evaluations': 0, 'nontrivial': 0,
           'rejected': 0, 'samples': [], 'labels': {}, 'known': [],
           'failure': None, 'error': None, 'truncated': False}
    seen = set()
    t0 = time.time()
    factor = 1 if tier == 'quick' else 40
    deadline = t0 + (st.budget or 150.) * factor
    first_fail = [None]
    current = open(os.path.join(tmp, st.name + '.case'), 'w+')

    def execute(case):
        now = time.time()
        if first_fail[0] is not None:
            if now > first_fail[0] + SHRINK_WALL[tier]:
                raise unittest.SkipTest('shrinking budget')
        elif now > deadline:
            res['truncated'] = True
            raise unittest.SkipTest('time budget')
        text = json.dumps(case)
        current.seek(0)
        current.write(text + '\n')
        current.truncate()
        current.flush()
        ctx = Ctx()
        # What the case is must survive JSON, since this is what is replayed
        jcase = json.loads(text)
        try:
            run_case(st, jcase, ctx)
        except Reject:
            res['rejected'] += 1
            return False
        except Known as e:
            if e.key in known:
                if e.key not in res['known']:
                    res['known'].append(e.key)
            else:
                _fail(text, e)
                raise
        except unittest.SkipTest:
            raise
        except Exception as e:
            _fail(text, e)
            raise
        if first_fail[0] is None:
            res['evaluations'] += 1
            for k, v in ctx.labels.items():
                res['labels'][k] = res['labels'].get(k, 0) + v
            if ctx._nontrivial:
                d = _digest(jcase)
                if d not in seen:
                    seen.add(d)
                    n = len(seen)
                    if n <= 2 or n in (20, 200):
                        res['samples'].append(_short(jcase))
        return True

    def _fail(text, e):
        if first_fail[0] is None:
            first_fail[0] = time.time()
        f = res['failure']
        key = (isinstance(e, Hang), len(text), text)
        if f is None or key < (f['hang'], len(f['case']), f['case']):
            res['failure'] = {
                'case': text, 'hang': isinstance(e, Hang),
                'what': '%s: %s' % (type(e).__name__, e),
                'trace': ''.join(traceback.format_exception(e)[-6:])}

    try:
        if st.cases is not None:
            cases = st.cases() if callable(st.cases) else st.cases
            for case in cases:
                try:
                    execute(case)
                except unittest.SkipTest:
                    break
                except Exception:
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase
            strat = st.strategy() if callable(st.strategy) else st.strategy

            @hypothesis.seed(zlib.crc32(
                ('%d:%s:%s' % (seed, st.prop, st.name)).encode()))
            @hypothesis.settings(
                database=None, deadline=None, print_blob=False,
                report_multiple_bugs=False,
                max_examples=getattr(st, tier),
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink])
            @hypothesis.given(strat)
            def test(case):
                if not execute(case):
                    hypothesis.assume(False)

            try:
                test()
            except unittest.SkipTest:
                pass
            except Exception:
                # A failure was recorded when it happened; anything else
                # that comes out of Hypothesis is a trouble of the harness
                if res['failure'] is None:
                    raise
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(e)[-8:])
    res['nontrivial'] = len(seen)
    res['wall'] = time.time() - t0
    with open(os.path.join(tmp, st.name + '.tmp'), 'w') as h:
        json.dump(res, h)
    os.rename(os.path.join(tmp, st.name + '.tmp'),
              os.path.join(tmp, st.name + '.json'))


def _cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as h:
            f = h.read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.


def _read_case(tmp, st):
    try:
        with open(os.path.join(tmp, st.name + '.case')) as h:
            text = h.readline()
        json.loads(text)
        return text.strip()
    except (OSError, ValueError):
        return None


def load_checks():
    d = os.path.join(HERE, 'checks')
    sys.path.insert(0, HERE)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('checks.' + f[:-3])


def _alone(st, text, cap):
    """Run one case in a process of its own; what happened, in short."""
    ctx = mp.get_context('fork')
    r, w = ctx.Pipe(False)

    def body():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        global CASE_CPU
        CASE_CPU = cap
        try:
            run_case(st, json.loads(text), Ctx())
            w.send(('pass', ''))
        except Reject:
            w.send(('reject', ''))
        except Hang as e:
            w.send(('hang', str(e)))
        except BaseException as e:
            w.send(('fail', '%s: %s' % (type(e).__name__, e)))
        w.close()

    p = ctx.Process(target=body)
    p.start()
    out = None
    while p.is_alive() or r.poll(0):
        if r.poll(0.2):
            try:
                out = r.recv()
            except EOFError:
                pass
            break
        if _cpu_of(p.pid) > cap + 30:
            p.kill()
            out = ('hang', 'no answer after %g s of CPU' % (cap + 30))
            break
    p.join()
    if out is None:
        out = ('crash', 'process ended with status %s' % p.exitcode)
    return out


def run_property(prop, tier, seed):
    """Run all the sub-tests; return (results, failure, errors)."""
    tests = SUBTESTS[prop]
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    ctx = mp.get_context('fork')
    njobs = max(1, min(8, os.cpu_count() or 1))
    pending = list(tests)
    running = {}
    results, errors = {}, []
    failure = None
    t0 = time.time()
    try:
        while pending or running:
            while pending and len(running) < njobs:
                st = pending.pop(0)
                p = ctx.Process(target=_worker, args=(st, tier, seed, tmp))
                p.start()
                running[st.name] = [st, p, None, 0.]
            time.sleep(0.05)
            for name in list(running):
                st, p, last, cpu0 = running[name]
                done = not p.is_alive()
                if not done:
                    # Heartbeat: the current case changes, or CPU is capped
                    try:
                        m = os.stat(os.path.join(tmp, name + '.case'))
                        beat = (m.st_mtime_ns, m.st_size)
                    except OSError:
                        beat = None
                    cpu = _cpu_of(p.pid)
                    if beat != last:
                        running[name][2:] = [beat, cpu]
                    elif beat is not None and cpu - cpu0 > HANG_CPU:
                        p.kill()
                        p.join()
                        done = True
                if not done:
                    continue
                p.join()
                del running[name]
                try:
                    with open(os.path.join(tmp, name + '.json')) as h:
                        results[name] = json.load(h)
                except (OSError, ValueError):
                    text = _read_case(tmp, st)
                    if text is None:
                        err = ''
                        try:
                            with open(os.path.join(tmp, name + '.err')) as h:
                                err = h.read()[-2000:]
                        except OSError:
                            pass
                        errors.append('%s: process ended with status %s '
                                      'before any case %s'
                                      % (name, p.exitcode, err))
                        continue
                    how, what = _alone(st, text, CASE_CPU * 2)
                    if how in ('crash', 'hang', 'fail'):
                        failure = (st, text, '%s: %s' % (how, what), '')
                    else:
                        errors.append('%s: process ended with status %s, '
                                      'case alone: %s'
                                      % (name, p.exitcode, how))
                    continue
                r = results[name]
                if r['error']:
                    errors.append('%s: %s' % (name, r['error']))
                f = r['failure']
                if f is not None:
                    if f['hang']:
                        how, what = _alone(st, f['case'], CASE_CPU * 2)
                        if how not in ('hang', 'crash', 'fail'):
                            errors.append('%s: unconfirmed hang' % name)
                            continue
                    failure = (st, f['case'], f['what'], f['trace'])
            if failure is not None:
                break
            if time.time() - t0 > WALL[tier]:
                if running or pending:
                    errors.append('wall clock exceeded, unfinished: %s' % (
                        ', '.join(list(running) + [s.name for s in pending])))
                break
    finally:
        for st, p, _, _ in running.values():
            p.kill()
            p.join()
        shutil.rmtree(tmp, ignore_errors=True)
    return results, failure, errors, time.time() - t0


def write_evidence(prop, tier, seed, results, violations, wall):
    tests = {t.name: t for t in SUBTESTS[prop]}
    ev = sum(r['evaluations'] for r in results.values())
    nt = sum(r['nontrivial'] for r in results.values())
    rules, samples, per = [], [], {}
    for n, r in results.items():
        rules.append('%s: %s' % (n, tests[n].rule or 'every case counts'))
        samples += [{'subtest': n, 'case': s} for s in r['samples'][:3]]
        per[n] = {'evaluations': r['evaluations'],
                  'distinct_nontrivial': r['nontrivial'],
                  'rejected': r['rejected'], 'labels': r['labels'],
                  'stopped_by_time_budget': r['truncated'],
                  'wall_s': round(r['wall'], 2)}
    doc = {'property': prop, 'tier': tier, 'seed': seed,
           'level': 'exploration',
           'coverage': {
               'evaluations': ev, 'distinct_nontrivial': nt,
               'rule': 'Cases generated by Hypothesis from one strategy per '
                       'sub-test (or enumerated where the space is finite); '
                       'distinct by the content of the case. Non-trivial: '
                       + ' | '.join(rules),
               'samples': samples, 'subtests': per},
           'assumptions': [
               'numpy, scipy, cvxopt and cvxpy as installed are trusted where '
               'an oracle uses them',
               'floating point comparisons use the tolerances written in '
               'the checks'],
           'wall_s': round(wall, 2), 'violations': violations}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as h:
        json.dump(doc, h, indent=1)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only', help='run one sub-test only')
    ap.add_argument('--replay', help='replay a saved case')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    from . import build
    try:
        msg = build.build()
    except build.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        return 2
    try:
        import pydsm
        src = os.path.realpath(pydsm.__file__)
        if not src.startswith(os.path.realpath(REPO) + '/src/'):
            print('pydsm comes from %s' % src)
            return 2
        sys.path.append(TOOLS)
        import hypothesis  # noqa
        load_checks()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    if a.setup:
        print(msg, '-', sum(map(len, SUBTESTS.values())), 'sub-tests of',
              len(SUBTESTS), 'properties')
        return 0
    if a.list:
        for p in sorted(SUBTESTS):
            print(p, ' '.join(t.name for t in SUBTESTS[p]))
        return 0
    if a.replay:
        with open(a.replay) as h:
            d = json.load(h)
        st = [t for t in SUBTESTS[d['property']] if t.name == d['subtest']][0]
        try:
            run_case(st, d['case'], Ctx())
        except Reject:
            print('case out of the domain')
            return 0
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print('VIOLATION property=%s replay=%s'
                  % (d['property'], a.replay))
            return 1
        print('held')
        return 0
    prop = a.property
    if a.only:
        SUBTESTS[prop] = [t for t in SUBTESTS[prop]
                          if t.name in a.only.split(',')]
    results, failure, errors, wall = run_property(prop, a.tier, a.seed)
    write_evidence(prop, a.tier, a.seed, results,
                   1 if failure is not None else 0, wall)
    for n, r in results.items():
        print('%s %-28s %7d evaluated %7d distinct non-trivial %5d rejected '
              '%6.1f s%s' % (prop, n, r['evaluations'], r['nontrivial'],
                             r['rejected'], r['wall'],
                             ' (time budget)' if r['truncated'] else ''))
        if a.v:
            print('   ', r['labels'])
    keys = known_keys(prop)
    for k in sorted(set(sum((r['known'] for r in results.values()), []))):
        print('KNOWN-FINDING: property=%s %s' % (prop, keys[k]))
    if failure is not None:
        st, text, what, trace = failure
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, st.name))
        with open(path, 'w') as h:
            json.dump({'property': prop, 'subtest': st.name,
                       'case': json.loads(text), 'what': what}, h, indent=1)
        print('%s failed: %s' % (st.name, what))
        if trace:
            print(trace)
        print('case: %s' % text[:2000])
        print('VIOLATION property=%s replay=%s'
              % (prop, os.path.relpath(path, HERE)))
        return 1
    if errors:
        print('CHECK ERROR\n' + '\n'.join(errors))
        return 3
    return 0
