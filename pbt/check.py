"""Runs the check of one property: check.py PROPERTY [--replay FILE]."""
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa: E402

from client import Died, HarnessError, Hang, Worker  # noqa: E402
from core import Skip, Violation, short  # noqa: E402
from gen import Broken, case_strategy  # noqa: E402

SHARDS = int(os.environ.get('KJ_SHARDS', '8'))
SHRINK_S = 40
SLOW = os.environ.get('KJ_SLOW')      # report cases that take longer than this
RECYCLE = 1500      # cases served by one worker process
HISTORY = 200       # earlier cases kept to reproduce what needs a history


class Abort(KeyboardInterrupt):
    """Stops Hypothesis from inside a case."""


def dumps(x):
    return json.dumps(x, sort_keys=True)


def digest(x):
    return hashlib.blake2b(dumps(x).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()


class Shard(object):
    """One process: its share of the cases of every scenario."""

    def __init__(self, prop, module, k, n, tier, base_seed, deadline, factor):
        self.prop, self.mod, self.k, self.n = prop, module, k, n
        self.tier, self.seed, self.deadline, self.factor = tier, base_seed, deadline, factor
        self.w = Worker()
        self.history = []
        self.stats = {}
        self.seen = set()
        self.unconfirmed = []
        self.truncated = False

    # -- one case
    def evaluate(self, sc, case, w):
        """Raise Violation if the case fails, also when it hangs or crashes."""
        st = self.cur

        def lab(name):
            st['labels'][name] = st['labels'].get(name, 0) + 1
        try:
            return sc.check(case, w, lab)
        except Hang as e:
            v = Violation('the code under test did not terminate (%s)' % e)
            v.hang = True
            raise v
        except Died as e:
            v = Violation('the interpreter running the code under test ended: %s' % e)
            v.hang = True
            raise v

    def case(self, sc, case, counting=True):
        st = self.cur
        if self.w.served > RECYCLE:
            self.w.spawn()
            self.history = []
        self.history.append((sc, case))
        del self.history[:-HISTORY]
        if counting:
            st['evaluations'] += 1
        t0 = time.monotonic()
        try:
            good = self.evaluate(sc, case, self.w)
        except Skip:
            st['skipped'] += 1
            return
        finally:
            if SLOW and time.monotonic() - t0 > float(SLOW):
                sys.stderr.write('slow: %s %.1f s %s\n' % (
                    sc.name, time.monotonic() - t0, dumps(case)[:300]))
        if counting and good:
            h = digest([sc.name, case])
            if h not in self.seen:
                self.seen.add(h)
                st['nontrivial'] += 1
                if len(st['samples']) < 2 and st['nontrivial'] in (1, 7):
                    st['samples'].append(case)

    # -- one scenario
    def run(self):
        for sc in self.mod.SCENARIOS:
            if ONLY and sc.name not in ONLY:
                continue
            t0 = time.monotonic()
            self.cur = self.stats[sc.name] = {
                'evaluations': 0, 'nontrivial': 0, 'skipped': 0, 'labels': {}, 'samples': []}
            try:
                found = self.run_cases(sc) if sc.cases else self.run_generated(sc)
            finally:
                self.cur['wall_s'] = round(time.monotonic() - t0, 1)
            if found:
                return found
        return None

    def run_cases(self, sc):
        for i, case in enumerate(sc.cases()):
            if i % self.n != self.k:
                continue
            if time.monotonic() > self.deadline:
                self.truncated = True
                return None
            try:
                self.case(sc, case)
            except Violation as v:
                found = self.confirm(sc, case, v)
                if found:
                    return found
        return None

    def run_generated(self, sc):
        n = max(1, int(sc.n * self.factor + self.n - 1) // self.n)
        for attempt in range(3):
            found = self.hunt(sc, n, attempt)
            if found != 'unconfirmed':
                return found
        return None

    def hunt(self, sc, n, attempt):
        best = []
        state = {'first': None}

        def body(case):
            now = time.monotonic()
            if state['first'] is None and now > self.deadline:
                self.truncated = True
                raise Abort()
            if state['first'] is not None and now > state['first'] + SHRINK_S:
                raise Abort()
            try:
                self.case(sc, case, counting=state['first'] is None)
            except Violation as v:
                key = (len(dumps(case)), dumps(case))
                if not best or key < best[0][0]:
                    best[:] = [(key, case, v, list(self.history))]
                if state['first'] is None:
                    state['first'] = time.monotonic()
                if getattr(v, 'hang', False):
                    raise Abort()
                raise
            except HarnessError as e:
                raise Broken(str(e))
            except Exception:
                raise Broken('case %s\n%s' % (dumps(case)[:3000], traceback.format_exc()))

        test = given(case_strategy(sc.gen))(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck))(test)
        h = hashlib.blake2b(('%d/%s/%s/%d/%d/%d' % (
            self.seed, self.prop, sc.name, self.k, self.n, attempt)).encode(), digest_size=6)
        test = seed(int(h.hexdigest(), 16))(test)
        try:
            test()
        except (Abort, Violation):
            pass
        except Broken as e:
            raise HarnessError(str(e))
        except hypothesis.errors.Flaky:
            pass
        except hypothesis.errors.Unsatisfiable:
            pass
        except BaseExceptionGroup as g:
            if g.subgroup(lambda e: isinstance(e, (HarnessError, Broken))):
                raise HarnessError(str(g))
            if not g.subgroup(lambda e: isinstance(e, Violation)):
                raise
        if not best:
            return None
        _, case, v, hist = best[0]
        return self.confirm(sc, case, v, hist) or 'unconfirmed'

    # -- confirmation: a violation must show again in a new process
    def fails(self, sc, case, before=()):
        w = Worker()
        try:
            for s, c in before:
                try:
                    self.evaluate(s, c, w)
                except (Violation, Skip):
                    pass
            try:
                self.evaluate(sc, case, w)
            except Skip:
                return None
            except Violation as v:
                return v
            return None
        finally:
            w.close()

    def confirm(self, sc, case, v, hist=None):
        self.cur = {'labels': {}}
        try:
            again = self.fails(sc, case)
            if again:
                return self.result(sc, case, again, [])
            before = [x for x in (hist or self.history)[:-1]]
            again = before and self.fails(sc, case, before)
            if not again:
                self.unconfirmed.append([sc.name, v.msg[:300]])
                return None
            stop = time.monotonic() + 60
            size = max(1, len(before) // 2)
            while size and time.monotonic() < stop:
                i = 0
                while i < len(before) and time.monotonic() < stop:
                    rest = before[:i] + before[i + size:]
                    r = self.fails(sc, case, rest)
                    if r:
                        before, again = rest, r
                    else:
                        i += size
                size //= 2
            return self.result(sc, case, again, before)
        finally:
            self.cur = self.stats[sc.name]

    def result(self, sc, case, v, before):
        return {'scenario': sc.name, 'case': case, 'message': v.msg, 'details': v.details,
                'before': [[s.name, c] for s, c in before]}


ONLY = [x for x in os.environ.get('KJ_ONLY', '').split(',') if x]


def shard_main(conn, *args):
    try:
        os.setpgrp()
    except OSError:
        pass
    sh = None
    try:
        sh = Shard(*args)
        found = sh.run()
        conn.send({'found': found, 'stats': sh.stats, 'seen': list(sh.seen),
                   'unconfirmed': sh.unconfirmed, 'truncated': sh.truncated})
    except BaseException as e:
        conn.send({'error': '%s\n%s' % (e, traceback.format_exc())})
    finally:
        if sh is not None:
            sh.w.close()
        conn.close()


def run_shards(prop, module, tier, base_seed, budget, factor):
    ctx = multiprocessing.get_context('fork')
    deadline = time.monotonic() + budget
    procs = []
    for k in range(SHARDS):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=shard_main, args=(
            b, prop, module, k, SHARDS, tier, base_seed, deadline, factor))
        p.start()
        b.close()
        procs.append((p, a))
    results, waiting = [], list(procs)
    found = None
    while waiting and not found:
        ready = multiprocessing.connection.wait([c for _, c in waiting], 5)
        for p, c in list(waiting):
            if c in ready:
                try:
                    r = c.recv()
                except EOFError:
                    r = {'error': 'shard ended without a result'}
                results.append(r)
                waiting.remove((p, c))
                if r.get('found'):
                    found = r['found']
    for p, c in waiting:
        kill_group(p.pid)
    for p, c in procs:
        p.join(10)
    return results, found


def kill_group(pid):
    import signal
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def merge(results):
    stats, seen = {}, set()
    for r in results:
        seen.update(r.get('seen', ()))
        for name, s in r.get('stats', {}).items():
            t = stats.setdefault(name, {'evaluations': 0, 'skipped': 0, 'wall_s': 0,
                                        'labels': {}, 'samples': []})
            t['evaluations'] += s['evaluations']
            t['skipped'] += s['skipped']
            t['wall_s'] = max(t['wall_s'], s.get('wall_s', 0))
            for k, v in s['labels'].items():
                t['labels'][k] = t['labels'].get(k, 0) + v
            t['samples'] += s['samples']
    return stats, seen


def known_findings(prop):
    """Entries of the committed file: 'known: property=ID text || {json}'."""
    out = []
    with open(os.path.join(ROOT, 'known-findings.txt'), encoding='utf-8') as f:
        for line in f:
            if line.startswith('known: property=%s ' % prop):
                text, spec = line[len('known: '):].rstrip('\n').split(' || ', 1)
                out.append((text, json.loads(spec)))
    return out


def show_known(prop):
    """Run each recorded input; print it if it still fails as recorded."""
    entries = known_findings(prop)
    shown = 0
    if entries:
        w = Worker()
        try:
            for text, spec in entries:
                try:
                    r = w.call(spec['steps'])[-1]
                except (Hang, Died):
                    w.spawn()
                    continue
                got = r['v'] if 'v' in r else r['exc']['type']
                if got == spec['observed']:
                    print('KNOWN-FINDING: ' + text)
                    shown += 1
        finally:
            w.close()
    return shown


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    base_seed = int(os.environ.get('VERIF_SEED', '1'))
    module = importlib.import_module('p_' + prop.lower())
    if '--replay' in sys.argv:
        return replay(prop, module, sys.argv[sys.argv.index('--replay') + 1])
    scratch = tempfile.mkdtemp(prefix='kjcheck-')
    try:
        tempfile.tempdir = scratch
        return check(prop, module, tier, base_seed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, module, tier, base_seed):
    t0 = time.monotonic()
    factor = float(os.environ.get('KJ_FACTOR', '20' if tier == 'thorough' else '2'))
    budget = float(os.environ.get('KJ_BUDGET', '700' if tier == 'thorough' else '120'))
    results, found = run_shards(prop, module, tier, base_seed, budget, factor)
    errors = [r['error'] for r in results if 'error' in r]
    if errors and not found:
        print('HARNESS ERROR\n' + errors[0][:6000])
        return 2
    known = show_known(prop)
    stats, seen = merge(results)
    unconfirmed = sum((r.get('unconfirmed', []) for r in results), [])
    samples = []
    for name, s in stats.items():
        for c in s.pop('samples')[:3]:
            samples.append({'scenario': name, 'case': json.loads(short_json(c))})
    ev = {
        'property': prop, 'tier': tier, 'seed': base_seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in stats.values()),
            'distinct_nontrivial': len(seen),
            'rule': ' | '.join('%s: %s' % (s.name, s.rule) for s in module.SCENARIOS),
            'samples': samples,
            'scenarios': stats,
            'skipped': sum(s['skipped'] for s in stats.values()),
            'unconfirmed': unconfirmed,
            'time_budget_hit': any(r.get('truncated') for r in results),
            'known_findings_seen': known,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if found else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if found:
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, digest(found['case'])))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(dict(found, property=prop), f, indent=1)
            f.write('\n')
        print('scenario %s: %s' % (found['scenario'], found['message']))
        print('case: ' + short(found['case'], 1500))
        for k, v in found['details'].items():
            print('%s: %s' % (k, short(v, 1500)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: held on %d cases, %d distinct non-trivial, %.1f s' % (
        prop, ev['coverage']['evaluations'], len(seen), ev['wall_s']))
    return 0


def short_json(c):
    s = json.dumps(c)
    return s if len(s) < 2500 else json.dumps(s[:2500] + '...')


def replay(prop, module, path):
    with open(path, encoding='utf-8') as f:
        r = json.load(f)
    scs = dict((s.name, s) for s in module.SCENARIOS)
    w = Worker()

    def lab(name):
        pass
    try:
        for name, case in r['before']:
            try:
                scs[name].check(case, w, lab)
            except (Violation, Skip, Hang, Died):
                pass
        scs[r['scenario']].check(r['case'], w, lab)
    except (Violation, Hang, Died) as v:
        print('%s' % v)
        for k, x in getattr(v, 'details', {}).items():
            print('%s: %s' % (k, x))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    finally:
        w.close()
    print('%s: the replay holds' % prop)
    return 0


if __name__ == '__main__':
    sys.exit(main())
