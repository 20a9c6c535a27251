"""C03 Indexing, slicing, islice and reversed read like a plain list."""
from functools import partial

from ..big import all_ints, bulk, hist_cases, run_hist
from ..core import Cov, SortedDict, SortedSet, Violation, clone
from ..lists import (KINDS, ListSys, bad, fmt, match_err, marks_for, outcome, q_basic,
                     q_each_int_cold, q_ints, q_islice, q_slices, same)
from ..wide import runs_cases, w_read, wide_case, wide_cases


class Idx:
    """An integer-like object (slices accept anything with __index__)."""

    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i

    def __repr__(self):
        return 'Idx(%d)' % self.i


def q_cold_slices(x, m, kind):
    """Each slice shape as the very first read of the state."""
    n = len(m)
    shapes = []
    for a in range(0, n + 1, max(1, n // 5)):
        shapes += [(a, n, None), (0, a, None), (a, a + 1, None), (a, None, -1),
                   (a, a + 3, None), (a, n - 1, 1), (None, -a - 1, None),
                   (None, None, a + 1), (a, 1, -1), (-1, a, -2)]
    for s in shapes:
        s = slice(*s)
        y = clone(x)
        o = outcome(y.__getitem__, s)
        e = m[s]
        if o[0] == 'err' or not same(o[1], e):
            bad('x[%r]' % (s,), ('ok', e), o)
        y = clone(x)
        if s.step is None:
            o = outcome(lambda: list(y.islice(s.start, s.stop)))
            if o[0] == 'err' or not same(o[1], e):
                bad('list(x.islice(%r, %r))' % (s.start, s.stop), ('ok', e), o)
    for v in (True, False):
        o = outcome(clone(x).__getitem__, v)
        if int(v) < n:
            if o[0] == 'err' or o[1] is not m[v]:
                bad('x[%r]' % v, ('ok', m[v]), o)
        elif not match_err(o, IndexError):
            bad('x[%r]' % v, ('err', IndexError), o)
    e = m[1:n - 1]
    o = outcome(x.__getitem__, slice(Idx(1), Idx(max(n - 1, 0))))
    if o[0] == 'err' or not same(o[1], e):
        bad('x[Idx(1):Idx(n-1)]', ('ok', e), o)
    for bad_step in (0,):
        o = outcome(x.__getitem__, slice(None, None, bad_step))
        if not match_err(o, ValueError):
            bad('x[::0]', ('err', ValueError), o)


def bulk_case(case, st):
    kind, load, n, built, mode = case
    k = KINDS[kind]
    if mode == 'ints':
        x, m = bulk(kind, load or 1000, n, built, default=load is None)
        all_ints(x, m)
        q_ints(x, m, k) if n < 60 else None
    elif mode == 'slices':
        x, m = bulk(kind, load or 1000, n, built, default=load is None)
        seg = load or 1000
        marks = marks_for(n, seg)
        if len(marks) > 34:
            marks = marks[:12] + marks[-16:]
        q_slices(x, m, k, marks)
    elif mode == 'islice':
        x, m = bulk(kind, load or 1000, n, built, default=load is None)
        marks = marks_for(n, load or 1000)
        if len(marks) > 34:
            marks = marks[:12] + marks[-16:]
        q_islice(x, m, k, marks)
    elif mode == 'rev':
        x, m = bulk(kind, load or 1000, n, built, default=load is None)
        if not same(list(reversed(x)), m[::-1]):
            raise Violation('list(reversed(x)), n=%d' % n)
        if not same(x[::-1], m[::-1]) or not same(x[:], m):
            raise Violation('x[::-1] / x[:], n=%d' % n)
    st.kind(mode)


def other_case(case, st):
    """SortedSet and the key/item/value views index like their sorted list."""
    n, load = case
    vals = [float(i) for i in range(n)]
    ss = SortedSet()
    ss._reset(load)
    for v in vals:
        ss.add(v)
    sd = SortedDict()
    sd._reset(load)
    for v in reversed(vals):
        sd[v] = -v
    m = list(vals)
    marks = [i for i in marks_for(n, load) if abs(i) < 10 ** 5]
    for name, x, ref in (('SortedSet', ss, m), ('sd.keys()', sd.keys(), m),
                         ('sd.items()', sd.items(), [(v, -v) for v in m]),
                         ('sd.values()', sd.values(), [-v for v in m])):
        for i in list(range(-n - 1, n + 1)):
            e = outcome(ref.__getitem__, i)
            o = outcome(x.__getitem__, i)
            if (e[0] == 'err' and not match_err(o, IndexError)) or (
                    e[0] == 'ok' and o != e):
                bad('%s[%d]' % (name, i), e, o)
        for a in [None] + marks:
            for b in [None] + marks:
                for c in (None, 2, -1, -3):
                    e = ref[a:b:c]
                    o = outcome(x.__getitem__, slice(a, b, c))
                    if o != ('ok', e):
                        bad('%s[%r:%r:%r]' % (name, a, b, c), ('ok', e), o)
        if list(reversed(x)) != ref[::-1]:
            bad('list(reversed(%s))' % name, ('ok', ref[::-1]),
                ('ok', list(reversed(x))))


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    full = (q_each_int_cold, q_cold_slices, q_basic, q_slices, q_islice)
    cov.bfs('core-distinct', ListSys('list', 4, 17 if deep else 14, battery=full))
    cov.bfs('core-distinct-key', ListSys('key', 4, 15 if deep else 12, battery=full))
    cov.bfs('core-ints', ListSys('list', 4, 23 if deep else 19,
                                 battery=(q_each_int_cold, q_ints)))
    cov.bfs('core-load5', ListSys('list', 5, 17 if deep else 13, battery=full))
    cov.bfs('full-ints', ListSys('list', 4, 13 if deep else 11, opset='full',
                                 battery=(q_each_int_cold, q_ints)))
    ns = list(range(0, 700 if deep else 330, 1))
    cov.cases('bulk-ints', 'bulk lists of every size up to %d, every index' % len(ns),
              [(k, load, n, b, 'ints') for k in ('list', 'key') for load in (4, 5)
               for n in ns for b in (False, True)], bulk_case)
    cov.cases('bulk-slices', 'bulk lists, slices over segment-boundary marks',
              [(k, load, n, False, mode) for k in ('list', 'key') for load in (4, 7)
               for n in list(range(0, 30)) + [33, 37, 40, 41, 64, 65, 97, 130]
               for mode in ('slices', 'islice', 'rev')], bulk_case)
    cov.cases('default-load', 'default load factor, sizes around its multiples',
              [(k, None, n, b, mode) for k in ('list', 'key')
               for n in (0, 1, 999, 1000, 1001, 2000, 2001, 3000, 4001, 9001)
               for b in (False, True) for mode in ('ints', 'slices', 'islice', 'rev')],
              bulk_case)
    cov.cases('histories', 'growth x shrink x read patterns, all indices',
              hist_cases(('list', 'key'), (4, 5) if deep else (4,), 100 if deep else 70),
              partial(run_hist, battery=(q_ints,)))
    cov.cases('set-and-views', 'SortedSet and dict views, every index, marked slices',
              [(n, load) for n in list(range(0, 20)) + [33, 50] for load in (4, 5)],
              other_case)
    cov.cases('wide', 'lists of 16 to 1000 segments in three layouts, nine operations '
              'in every part of them, twice and thrice',
              wide_cases(('list', 'key'), (68, 131, 260, 520, 1030, 2060) if deep else (68, 260, 520)),
              partial(wide_case, battery=(w_read,)), timeout=300)
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts, nine '
              'operations in every part of them, twice and thrice',
              runs_cases(('list', 'key'), (23, 51, 96, 181, 370) if deep else (23, 51, 96)),
              partial(wide_case, battery=(w_read,)), timeout=300)
    return cov.result()
