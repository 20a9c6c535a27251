"""C06 irange and islice yield exactly the values in range."""
from functools import partial

from ..big import bulk, hist_cases, run_hist
from ..core import Cov, SortedDict, SortedSet, clone
from ..wide import runs_cases, w_range, wide_case, wide_cases
from ..lists import (KINDS, ListSys, bad, marks_for, match_err, outcome, q_islice, q_range, same)


def expected(keys, m, kl, kh, inc, rev):
    out = []
    for q, v in zip(keys, m):
        if kl is not None and (q < kl or (not inc[0] and not kl < q)):
            continue
        if kh is not None and (kh < q or (not inc[1] and not q < kh)):
            continue
        out.append(v)
    return out[::-1] if rev else out


def q_forms(x, m, kind):
    """Call forms: defaults, keywords, truthy stand-ins, partial consumption, and each
    as the first call on the state (islice builds the index lazily)."""
    n = len(m)
    keys = [kind.okey(v) for v in m]
    if n:
        lo, hi = m[n // 3], m[(2 * n) // 3]
    else:
        lo = hi = kind.elem(0.0)
    kl, kh = kind.okey(lo), kind.okey(hi)
    jobs = [
        ('irange()', lambda y: y.irange(), (None, None, (1, 1), 0)),
        ('irange(lo)', lambda y: y.irange(lo), (kl, None, (1, 1), 0)),
        ('irange(lo, hi)', lambda y: y.irange(lo, hi), (kl, kh, (1, 1), 0)),
        ('irange(maximum=hi)', lambda y: y.irange(maximum=hi), (None, kh, (1, 1), 0)),
        ('irange(minimum=lo, inclusive=[0, 1])',
         lambda y: y.irange(minimum=lo, inclusive=[0, 1]), (kl, None, (0, 1), 0)),
        ('irange(lo, hi, (1, 0), 1)', lambda y: y.irange(lo, hi, (1, 0), 1),
         (kl, kh, (1, 0), 1)),
        ('irange(maximum=hi, reverse=True)',
         lambda y: y.irange(maximum=hi, reverse=True), (None, kh, (1, 1), 1)),
    ]
    if kind.keyed:
        jobs += [
            ('irange_key()', lambda y: y.irange_key(), (None, None, (1, 1), 0)),
            ('irange_key(kl)', lambda y: y.irange_key(kl), (kl, None, (1, 1), 0)),
            ('irange_key(min_key=kl, max_key=kh)',
             lambda y: y.irange_key(min_key=kl, max_key=kh), (kl, kh, (1, 1), 0)),
            ('irange_key(max_key=kh, inclusive=(0, 0), reverse=True)',
             lambda y: y.irange_key(max_key=kh, inclusive=(0, 0), reverse=True),
             (None, kh, (0, 0), 1)),
        ]
    for text, fn, (a, b, inc, rev) in jobs:
        e = expected(keys, m, a, b, inc, rev)
        o = outcome(lambda: list(fn(clone(x))))
        if o[0] == 'err' or not same(o[1], e):
            bad('list(x.%s) lo=%r hi=%r' % (text, lo, hi), ('ok', e), o)
        # an iterator: iter(it) is it, next() one by one, then exhausted
        it = fn(clone(x))
        got = []
        if iter(it) is not it:
            bad('iter(x.%s) is not itself' % text, ('ok', True), ('ok', False))
        for v in it:
            got.append(v)
        if not same(got, e) or list(it):
            bad('x.%s one by one' % text, ('ok', e), ('ok', got))
    for text, fn, e in (
            ('islice(1)', lambda y: y.islice(1), m[1:]),
            ('islice(stop=2)', lambda y: y.islice(stop=2), m[:2]),
            ('islice(1, n-1)', lambda y: y.islice(1, n - 1), m[1:n - 1]),
            ('islice(-2)', lambda y: y.islice(-2), m[-2:]),
            ('islice(None, None, True)', lambda y: y.islice(None, None, True), m[::-1]),
            ('islice(reverse=True, start=2)', lambda y: y.islice(reverse=True, start=2),
             m[2:][::-1]),
            ('islice(0, 0)', lambda y: y.islice(0, 0), []),
            ('islice(n//2, n//2+5)', lambda y: y.islice(n // 2, n // 2 + 5),
             m[n // 2:n // 2 + 5])):
        o = outcome(lambda: list(fn(clone(x))))
        if o[0] == 'err' or not same(o[1], e):
            bad('list(x.%s) n=%d' % (text, n), ('ok', e), o)
        it = fn(clone(x))
        got = []
        while True:
            o = outcome(next, it)
            if o[0] == 'err':
                break
            got.append(o[1])
        if not same(got, e) or not match_err(o, StopIteration) or list(it):
            bad('next() on x.%s n=%d' % (text, n), ('ok', e), o)


def q_islice_few(x, m, kind):
    n = len(m)
    q_islice(x, m, kind, [i for i in range(-n - 1, n + 2)])


def bulk_case(case, st):
    kind, load, n, ties, mode = case
    k = KINDS[kind]
    x, m = bulk(kind, load or 1000, n, ties=ties, default=load is None)
    keys = [k.okey(v) for v in m]
    if mode == 'islice':
        marks = marks_for(n, load or 1000)
        if len(marks) > 44:
            marks = marks[:18] + marks[-20:]
        q_islice(x, m, k, marks)
    elif n <= 14:
        q_range(x, m, k)
        q_forms(x, m, k)
    else:
        pts = {0, 1, 2, 3, 4, 5, 7, 8, 9, n // 2, n // 2 + 1, n // 2 + 4, n - 5, n - 4,
               n - 2, n - 1}
        if load is None:
            pts |= {998, 999, 1000, 1001, 1999, 2000, 2001}
        probes = [None]
        for i in sorted(pts & set(range(n))):
            c = k.code(m[i])
            probes += [k.elem(c[0], c[1]), k.elem(c[0] + 0.5, 0)]
        probes += [k.elem(k.code(m[0])[0] - 1.0), k.elem(k.code(m[-1])[0] - 1.0)]
        import bisect
        for lo in probes:
            for hi in probes:
                kl = None if lo is None else k.okey(lo)
                kh = None if hi is None else k.okey(hi)
                for inc in ((1, 1), (1, 0), (0, 1), (0, 0)):
                    a = 0 if kl is None else (
                        bisect.bisect_left if inc[0] else bisect.bisect_right)(keys, kl)
                    b = n if kh is None else (
                        bisect.bisect_right if inc[1] else bisect.bisect_left)(keys, kh)
                    e = m[a:b]
                    for rev in (False, True):
                        got = list(x.irange(lo, hi, inc, rev))
                        if not same(got, e[::-1] if rev else e):
                            bad('list(x.irange(%r, %r, %r, %r)) n=%d' % (
                                lo, hi, inc, rev, n), ('ok', e[::-1] if rev else e),
                                ('ok', got))
                        st.add('transitions')
    st.kind(mode)


def other_case(case, st):
    what, n, load, keyed = case
    key = (lambda v: -v) if keyed else None
    vals = [float(i * 2) for i in range(n)]
    c = SortedSet(key=key) if what == 'set' else SortedDict(key)
    held = [c.irange, c.islice] + ([c.irange_key] if keyed else [])
    c._reset(load)
    for v in vals[::-1]:
        if what == 'set':
            c.add(v)
        else:
            c[v] = 'x'
    m = sorted(vals, key=key)
    keys = [key(v) if key else v for v in m]
    probes = [None] + [i - 1.0 for i in range(2 * n + 2)]
    for irange, islice, ik in ((held[0], held[1], held[-1]),
                               (c.irange, c.islice, c.irange_key if keyed else None)):
        for lo in probes:
            for hi in probes:
                kl = lo if lo is None or not key else key(lo)
                kh = hi if hi is None or not key else key(hi)
                for inc in ((True, True), (True, False), (False, True), (False, False)):
                    e = expected(keys, m, kl, kh, inc, 0)
                    for rev in (False, True):
                        ee = e[::-1] if rev else e
                        st.add('transitions')
                        o = outcome(lambda: list(irange(lo, hi, inc, rev)))
                        if o != ('ok', ee):
                            bad('%s.irange(%r, %r, %r, %r)' % (what, lo, hi, inc, rev),
                                ('ok', ee), o)
                        if keyed:
                            o = outcome(lambda: list(ik(kl, kh, inc, rev)))
                            if o != ('ok', ee):
                                bad('%s.irange_key(%r, %r, %r, %r)' % (
                                    what, kl, kh, inc, rev), ('ok', ee), o)
        for a in [None] + list(range(-n - 1, n + 2)):
            for b in [None] + list(range(-n - 1, n + 2)):
                for rev in (False, True):
                    e = m[a:b][::-1] if rev else m[a:b]
                    o = outcome(lambda: list(islice(a, b, rev)))
                    if o != ('ok', e):
                        bad('%s.islice(%r, %r, %r)' % (what, a, b, rev), ('ok', e), o)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_forms, q_range, q_islice)
    cov.bfs('distinct', ListSys('list', 4, 15 if deep else 12, battery=B))
    cov.bfs('distinct-key', ListSys('key', 4, 14 if deep else 11, battery=B))
    cov.bfs('ties', ListSys('list', 4, 12 if deep else 9, distinct=False, kmax=3,
                            battery=B))
    cov.bfs('ties-key', ListSys('key', 4, 7 if deep else 5, distinct=False, kmax=2,
                                emax=2, battery=B))
    cov.bfs('one-class', ListSys('list', 4, 22 if deep else 17, distinct=False, kmax=1,
                                 battery=B))
    cov.bfs('full', ListSys('list', 4, 11 if deep else 8, opset='full', battery=B))
    cov.bfs('islice-larger', ListSys('list', 4, 21 if deep else 17,
                                     battery=(q_islice_few,)))
    cov.cases('bulk', 'bulk lists, bounds at and between values next to segment edges',
              [(k, load, n, t, mode) for k in ('list', 'key') for load in (4, 5)
               for n in list(range(0, 34)) + [65, 66]
               for t in (False, True) for mode in ('irange', 'islice')], bulk_case)
    cov.cases('bulk-wide', 'up to a thousand segments',
              [(k, load, n, t, mode) for k in ('list', 'key') for load in (4, 6)
               for n in (97, 130, 260, 500, 1030) + ((2060, 4000) if deep else ())
               for t in (False, True) for mode in ('irange', 'islice')], bulk_case)
    cov.cases('default-load', 'default load factor',
              [(k, None, n, t, mode) for k in ('list', 'key')
               for n in (1000, 1001, 2001, 4001) for t in (False, True)
               for mode in ('irange', 'islice')], bulk_case)
    cov.cases('set-dict', 'SortedSet and SortedDict, methods held from birth',
              [(w, n, load, kd) for w in ('set', 'dict')
               for n in list(range(0, 10)) + [14, 19] + ([27] if deep else [])
               for load in (4, 5) for kd in (False, True)], other_case)
    cov.cases('histories', 'growth x shrink x read patterns',
              hist_cases(('list', 'key'), (4, 5) if deep else (4,), 60 if deep else 40,
                         reads=('none', 'index')),
              partial(run_hist, battery=(q_forms,)))
    cov.cases('wide', 'lists of 16 to 1000 segments in three layouts, nine operations '
              'in every part of them, twice and thrice',
              wide_cases(('list', 'key'), (68, 131, 260, 520, 1030, 2060) if deep else (68, 260, 520)),
              partial(wide_case, battery=(w_range,)), timeout=300)
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts, nine '
              'operations in every part of them, twice and thrice',
              runs_cases(('list', 'key'), (23, 51, 96, 181, 370) if deep else (23, 51, 96)),
              partial(wide_case, battery=(w_range,)), timeout=300)
    return cov.result()
