"""Harness core: code under test, violations, parallel explicit-state search,
evidence and replay artefacts."""
import gc
import io
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

# A private, empty byte-code cache: no stale .pyc of the tree is ever read.
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-pyc-%d' % os.getpid())
sys.path.insert(0, SRC)

import sortedcontainers as SC  # noqa: E402

if not os.path.abspath(SC.__file__).startswith(SRC + os.sep):
    print('harness: imported the wrong package', SC.__file__)
    sys.exit(3)

SortedList = SC.SortedList
SortedKeyList = SC.SortedKeyList
SortedDict = SC.SortedDict
SortedSet = SC.SortedSet

from . import snap  # noqa: E402
from .snap import clone, digest  # noqa: E402,F401

# Soft wall-clock budget of one check.  Never reached on the trees it was sized on;
# reaching it is recorded as a cap in the evidence, it is not an error.
T0 = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET', '700'))


def late():
    return time.time() - T0 > BUDGET


NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, what, expected=None, actual=None, trace=None, pre=None):
        super().__init__(what)
        self.info = {
            'what': what, 'expected': short(expected), 'actual': short(actual),
            'trace': trace or [], 'pre': pre or [],
        }


class Hang(BaseException):
    pass


def short(x, n=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # repr of a broken container
        s = '<repr failed: %r>' % (e,)
    return s if len(s) <= n else s[:n] + '...'


def arm(seconds=40):
    """CPU-time watchdog for one unit of work (a non-terminating operation of the
    code under test becomes a violation, never a hung check)."""
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _on_alarm(sig, frame):
    raise Hang()


def limit_memory(gb=6):
    lim = gb << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass


class Quiet:
    """Swallow what ``_check`` prints on failure."""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o


# --------------------------------------------------------------------------
# parallel map over forked workers
# --------------------------------------------------------------------------

def _worker(fn, shard, nshards, wfd):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    limit_memory()
    try:
        try:
            res = ('ok', fn(shard, nshards))
        except Violation as v:
            res = ('violation', v.info)
        except Hang:
            res = ('violation', {
                'what': 'operation did not terminate within the CPU-time limit',
                'expected': 'termination', 'actual': 'no termination',
                'trace': list(CURRENT.get('trace') or ()), 'pre': []})
        except MemoryError:
            res = ('violation', {
                'what': 'operation exhausted memory (unbounded growth)',
                'expected': 'termination', 'actual': 'MemoryError',
                'trace': list(CURRENT.get('trace') or ()), 'pre': []})
        except BaseException:
            res = ('error', traceback.format_exc())
        disarm()
        data = pickle.dumps(res, 4)
    except BaseException:
        data = pickle.dumps(('error', traceback.format_exc()), 4)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


CURRENT = {}


class HarnessError(Exception):
    pass


def pmap(fn, nshards=None):
    """Run fn(shard, nshards) in forked workers; return results; raise the first
    violation (lowest shard, so the outcome is deterministic)."""
    nshards = nshards or NPROC
    sys.stdout.flush()
    sys.stderr.flush()
    results = {}
    pend = list(range(nshards))
    live = {}
    import select
    bufs = {}
    gc.disable()
    try:
        while pend or live:
            while pend and len(live) < NPROC:
                s = pend.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    _worker(fn, s, nshards, w)
                os.close(w)
                live[r] = (s, pid)
                bufs[r] = []
            ready, _, _ = select.select(list(live), [], [])
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    bufs[r].append(b)
                    continue
                os.close(r)
                s, pid = live.pop(r)
                _, st = os.waitpid(pid, 0)
                raw = b''.join(bufs.pop(r))
                if not raw:
                    results[s] = ('error', 'worker %d died, status %r' % (s, st))
                else:
                    results[s] = pickle.loads(raw)
                if results[s][0] == 'violation':
                    pend = []  # no new work; let the running ones finish
    finally:
        gc.enable()
    for s in sorted(results):
        if results[s][0] == 'violation':
            v = Violation('x')
            v.info = results[s][1]
            raise v
    for s in sorted(results):
        if results[s][0] == 'error':
            raise HarnessError(results[s][1])
    return [results[s][1] for s in sorted(results)]


SLOW = os.environ.get('VERIF_SLOW')     # development aid: report slow cases


def pcases(cases, fn, nshards=None, timeout=40):
    """Exhaust a finite list of cases: fn(case, stats) for every case, sharded
    round-robin over the workers.  Returns merged stats."""
    def work(shard, n):
        st = Stats()
        for i in range(shard, len(cases), n):
            if late():
                st.add('skipped_late')
                continue
            CURRENT['trace'] = [repr(cases[i])[:300]]
            arm(timeout)
            t0 = time.process_time()
            try:
                fn(cases[i], st)
                if SLOW and time.process_time() - t0 > float(SLOW):
                    print('slow', round(time.process_time() - t0, 1), repr(cases[i])[:100],
                          file=sys.stderr)
            except (Violation, Hang, MemoryError, HarnessError):
                raise
            except Exception as e:
                raise Violation(
                    'unexpected exception', 'no exception',
                    '%r\n%s' % (e, traceback.format_exc()), [repr(cases[i])[:500]])
        disarm()
        return st
    return merge_stats(pmap(work, min(nshards or NPROC, max(1, len(cases)))))


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def sample(self, s, cap=3):
        l = self.setdefault('samples', [])
        if len(l) < cap:
            l.append(s)

    def kind(self, k):
        """Count of distinct outcome kinds observed (vacuity guard)."""
        d = self.setdefault('outcomes', {})
        d[k] = d.get(k, 0) + 1

    def merge(self, o):
        for k, v in o.items():
            if k == 'samples':
                for s in v:
                    self.sample(s, 6)
            elif k == 'outcomes':
                d = self.setdefault('outcomes', {})
                for kk, n in v.items():
                    d[kk] = d.get(kk, 0) + n
            elif isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
            else:
                self[k] = v
        return self


def merge_stats(l):
    s = Stats()
    for x in l:
        s.merge(x)
    return s


# --------------------------------------------------------------------------
# explicit-state breadth-first search over the real implementation
# --------------------------------------------------------------------------

class Explorer:
    """Parallel level-synchronous BFS.

    ``sys`` provides
      initial()            -> list of (label lines, obj, model)
      ops(obj, model)      -> iterable of operations, simplest first
      step(obj, model, op) -> new model; mutates obj; raises Violation
      expand(model)        -> whether to expand this state (size bound)
      valmap(model)        -> canonical value codes (data independence)
      on_state(obj, model, st) -> oracle battery for each new state
      render(op)           -> source text of the operation
    """

    def __init__(self, sys_, max_levels=200, max_states=400000, name=''):
        self.sys = sys_
        self.name = name
        self.max_levels = max_levels
        self.max_states = max_states
        self.objs = []
        self.models = []
        self.parent = []
        self.opin = []
        self.labels = []
        self.seen = {}
        self.stats = Stats()
        self.capped = None

    def path(self, i):
        """Operations from the initial state to state i."""
        out = []
        while self.parent[i] is not None:
            out.append(self.opin[i])
            i = self.parent[i]
        return out[::-1]

    def trace(self, i):
        out = []
        while self.parent[i] is not None:
            out.append(self.sys.render(self.opin[i]))
            i = self.parent[i]
        return list(self.labels[i]), out[::-1]

    def _add(self, obj, model, parent, op, label, d):
        self.seen[d] = len(self.objs)
        self.objs.append(obj)
        self.models.append(model)
        self.parent.append(parent)
        self.opin.append(op)
        self.labels.append(label)

    def run(self):
        sy = self.sys
        t0 = time.time()
        for label, obj, model in sy.initial():
            d = digest(obj, sy.valmap(model)) + sy.extra(model)
            if d not in self.seen:
                self._add(obj, model, None, None, label, d)
        lo, hi = 0, len(self.objs)
        level = 0
        while lo < hi:
            n = min(NPROC, max(1, (hi - lo) // 2))

            def work(shard, nsh, lo=lo, hi=hi):
                st = Stats()
                found = []
                local = set()
                for i in range(lo + shard, hi, nsh):
                    if late():
                        st.add('skipped_late')
                        continue
                    arm(60)
                    pre, tr = self.trace(i)
                    CURRENT['trace'] = pre + tr
                    try:
                        sy.at(self, i)
                        sy.on_state(self.objs[i], self.models[i], st)
                        st.add('states')
                        if not sy.expand(self.models[i]):
                            continue
                        for op in sy.ops(self.objs[i], self.models[i]):
                            CURRENT['trace'] = pre + tr + [sy.render(op)]
                            y = clone(self.objs[i])
                            m = sy.step(y, self.models[i], op)
                            st.add('transitions')
                            if sy.leaf(op, m):
                                sy.on_leaf(y, m, st)
                                continue
                            d = digest(y, sy.valmap(m)) + sy.extra(m)
                            if d in self.seen or d in local:
                                continue
                            local.add(d)
                            found.append((d, i, op))
                    except Violation as v:
                        if not v.info['trace']:
                            v.info['trace'] = list(CURRENT['trace'])
                        raise
                    except (Hang, MemoryError, HarnessError):
                        raise
                    except Exception as e:
                        raise Violation(
                            'unexpected exception from the code under test',
                            'no exception',
                            '%r\n%s' % (e, traceback.format_exc()),
                            list(CURRENT['trace']))
                    if i % sy.replay_stride == 0:
                        self.replay(i)
                        st.add('replayed')
                disarm()
                return st, found

            res = pmap(work, n)
            new = []
            for st, found in res:
                self.stats.merge(st)
                new.extend(found)
            new.sort(key=lambda t: t[1])
            lo = hi
            for d, i, op in new:
                if d in self.seen:
                    continue
                if len(self.objs) >= self.max_states:
                    self.capped = 'max_states=%d' % self.max_states
                    break
                y = clone(self.objs[i])
                m = sy.step(y, self.models[i], op)
                self._add(y, m, i, op, None, d)
            hi = len(self.objs)
            level += 1
            if level >= self.max_levels:
                if lo < hi:
                    # the depth is a stated bound (see Cov.bfs), not a cap;
                    # states of the last level still get their oracle battery
                    self._last(lo, hi)
                break
        self.stats['levels'] = level
        self.stats['wall'] = round(time.time() - t0, 2)
        if self.objs:
            for i in sorted({len(self.objs) // 2, len(self.objs) - 1}):
                pre, tr = self.trace(i)
                self.stats.sample('; '.join(pre + tr)[:400])
        return self.stats

    def _last(self, lo, hi):
        sy = self.sys

        def work(shard, nsh):
            st = Stats()
            for i in range(lo + shard, hi, nsh):
                arm(60)
                pre, tr = self.trace(i)
                CURRENT['trace'] = pre + tr
                try:
                    sy.at(self, i)
                    sy.on_state(self.objs[i], self.models[i], st)
                except Violation as v:
                    if not v.info['trace']:
                        v.info['trace'] = list(CURRENT['trace'])
                    raise
                st.add('states')
            disarm()
            return st
        for st in pmap(work):
            self.stats.merge(st)

    def replay(self, i):
        """Re-execute the history of state i from scratch on a fresh object (no
        clone involved) and require the same observable state: binds the clones
        used by the search to real executions."""
        sy = self.sys
        chain = []
        j = i
        while self.parent[j] is not None:
            chain.append(self.opin[j])
            j = self.parent[j]
        if not self.labels[j] or not hasattr(sy, 'fresh'):
            return
        obj, model = sy.fresh(self.labels[j])
        for op in reversed(chain):
            model = sy.step(obj, model, op)
        if sy.observe(obj) != sy.observe(self.objs[i]):
            raise Violation(
                'replaying the same history on a fresh instance gives another result',
                sy.observe(self.objs[i]), sy.observe(obj))


# --------------------------------------------------------------------------
# evidence, replay files, exit codes
# --------------------------------------------------------------------------

class Base:
    """Defaults of the system interface."""
    replay_stride = 17

    def extra(self, m):
        return b''

    def at(self, explorer, i):
        """Told which state on_state is about to see."""

    def leaf(self, op, m):
        return False

    def on_leaf(self, x, m, st):
        pass

    def expand(self, m):
        return True


class Cov:
    """Accumulates what one check explored."""

    def __init__(self):
        self.parts = []
        self.total = Stats()
        self.caps = []
        self.log = bool(os.environ.get('VERIF_VERBOSE'))

    def _part(self, name, bound, st, t0):
        part = {'part': name, 'bound': bound}
        part.update({k: v for k, v in st.items() if k not in ('samples',)})
        part['wall'] = round(time.time() - t0, 2)
        self.parts.append(part)
        self.total.merge({k: v for k, v in st.items() if k not in (
            'levels', 'wall', 'samples')})
        for s in (st.get('samples') or [])[:2]:
            self.total.sample('%s: %s' % (name, s), 12)
        if self.log:
            print('  part %-34s %s' % (name, {
                k: v for k, v in part.items() if k not in ('part', 'bound')}))
            sys.stdout.flush()

    def _late(self, name, st):
        if st.get('skipped_late'):
            self.caps.append('%s: wall-clock budget, %d states or cases skipped' % (
                name, st['skipped_late']))

    def bfs(self, name, sy, **kw):
        """Explicit-state search of a system to exhaustion (within its size bound)."""
        t0 = time.time()
        ex = Explorer(sy, name=name, **kw)
        st = ex.run()
        self._late(name, st)
        if ex.capped:
            self.caps.append('%s: %s' % (name, ex.capped))
        b = getattr(sy, 'bound', '') or sy.describe()
        if 'max_levels' in kw:
            b += '; depth <= %d' % kw['max_levels']
        self._part(name, b, st, t0)
        return st

    def cases(self, name, bound, cases, fn, **kw):
        """Exhaust a finite product of cases, each executed from scratch."""
        t0 = time.time()
        cases = list(cases)
        st = pcases(cases, fn, **kw)
        self._late(name, st)
        st.setdefault('states', 0)
        if not st['states']:
            st['states'] = len(cases)
        st['transitions'] = st.get('transitions', 0) or len(cases)
        st['replayed'] = st.get('replayed', 0) + len(cases)
        st['cases'] = len(cases)
        if cases and not st.get('samples'):
            st.sample(repr(cases[-1])[:300])
        self._part(name, bound, st, t0)
        return st

    def result(self, assumptions=()):
        t = self.total
        cov = {
            'states': t.get('states', 0),
            'transitions': t.get('transitions', 0),
            'traces_validated_against_impl': t.get('replayed', 0),
            'samples': t.get('samples', []),
            'outcomes': t.get('outcomes', {}),
            'exhaustive': not self.caps,
            'caps': self.caps,
            'parts': self.parts,
        }
        return cov, list(ASSUME) + list(assumptions)


ASSUME = (
    'elements are totally ordered, consistently hashed and not mutated while stored '
    '(documented requirement); no mutation during iteration; single thread',
    'every transition runs the real package code; states are exact clones of live '
    'objects, re-validated by replaying histories from scratch on fresh objects',
)

def known_findings(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get('findings', []) if e.get('property') == pid]


def write_replay(pid, info, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.py' % pid)
    lines = [
        '# Replay of a violation of %s (tier %s)' % (pid, tier),
        '# what:     %s' % info['what'].replace('\n', '\n#           '),
        '# expected: %s' % str(info['expected']).replace('\n', '\n#           '),
        '# actual:   %s' % str(info['actual']).replace('\n', '\n#           '),
        '# Run: PYTHONPATH=%s:%s python3 -B %s' % (SRC, VERIF, path),
        'from mc.replay import *',
        '',
    ]
    for t in list(info.get('pre') or []) + list(info['trace']):
        for part in str(t).split('\n'):
            lines.append(part)
    lines.append('show(globals())')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return path


def main(pid, run, tier, bounds=''):
    """run(tier) -> (coverage dict, assumptions list)."""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {}, 'assumptions': [], 'wall_s': 0.0, 'violations': 0}
    code = 0
    try:
        cov, assume = run(tier)
        ev['coverage'] = cov
        ev['assumptions'] = assume
        for e in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, e.get('what')))
        print('%s held: states=%d transitions=%d traces_validated=%d' % (
            pid, cov['states'], cov['transitions'],
            cov['traces_validated_against_impl']))
    except Violation as v:
        info = v.info
        path = write_replay(pid, info, tier)
        print('what: %s' % info['what'])
        print('expected: %s' % info['expected'])
        print('actual: %s' % info['actual'])
        for t in (info.get('pre') or []) + info['trace']:
            print('  ', t)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        ev['violations'] = 1
        ev['coverage'] = {
            'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
            'samples': [info['trace']], 'violation': info}
        code = 1
    except HarnessError as e:
        print('harness error:\n%s' % e)
        code = 3
    ev['wall_s'] = round(time.time() - t0, 2)
    if code != 3:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    sys.stdout.flush()
    return code
