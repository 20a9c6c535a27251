"""C02 SortedKeyList: values are unorderable complex numbers, ordered by key only."""
from functools import partial

from ..big import (bulk_cases, default_cases, hist_cases, op_case, q_some_ints,
                   run_hist)
from ..core import Cov, SC, SortedKeyList, SortedList, Violation
from ..domains import list_case, list_cases
from ..lists import (KINDS, ListSys, check_contents, fmt, match_err, negreal, outcome,
                     q_basic, q_light)
from ..wide import runs_cases, w_check, w_contents, wide_case, wide_cases
from ..matrix import matrix_cases, matrix_large
from ..matrix import list_case as matrix_list_case


def ties_case(case, st):
    """n values spread over c order classes (unequal within a class): remove,
    discard, count, contains, index of each and of an absent twin."""
    n, c, load, op = case
    k = KINDS['key']
    vals = [k.elem(float(i * c // n if n else 0), i) for i in range(n)]
    base = SortedKeyList(key=negreal)
    base._reset(load)
    for v in vals:
        base.add(v)
    m0 = sorted(vals, key=negreal)
    from ..core import clone
    for v in [k.elem(x.real, x.imag) for x in vals] + [
            k.elem(float(i), 999) for i in range(c)] + [k.elem(0.5, 0)]:
        x = clone(base)
        m = list(m0)
        st.add('transitions')
        if op in ('remove', 'discard'):
            a = outcome(getattr(x, op), v)
            e = outcome(m.remove, v)
            if op == 'discard':
                e = ('ok', None)
            ok = match_err(a, e[1]) if e[0] == 'err' else a == e
        elif op == 'contains':
            a, e = outcome(x.__contains__, v), ('ok', v in m)
            ok = a == e
        elif op == 'count':
            a, e = outcome(x.count, v), ('ok', m.count(v))
            ok = a == e
        else:
            a, e = outcome(x.index, v), outcome(m.index, v)
            ok = match_err(a, e[1]) if e[0] == 'err' else a == e
        st.kind(a[0])
        if not ok:
            raise Violation('%s(%r)' % (op, v), fmt(e), fmt(a),
                            ['x = SortedKeyList(key=negreal); x._reset(%d)' % load,
                             'for v in %r: x.add(v)' % (vals,), 'x.%s(%r)' % (op, v)])
        check_contents(x, m)


def make_case(case, st):
    """Every way of making a keyed list behaves the same."""
    how, n = case
    k = KINDS['key']
    vals = [k.elem(float((i * 5) % 7), i) for i in range(n)]
    e = sorted(vals, key=negreal)
    if how == 'ctor':
        x = SortedKeyList(vals, key=negreal)
    elif how == 'ctor-pos':
        x = SortedKeyList(vals, negreal)
    elif how == 'ctor-gen':
        x = SortedKeyList((v for v in vals), key=negreal)
    elif how == 'SortedList(key)':
        x = SortedList(vals, key=negreal)
        if type(x) is not SortedKeyList:
            raise Violation('type(SortedList(values, key=f))', 'SortedKeyList', type(x))
    elif how == 'alias':
        x = SC.SortedListWithKey(vals, key=negreal)
    elif how == 'identity':
        vals = [v.imag for v in vals]
        e = sorted(vals)
        x = SortedKeyList(vals)
        if list(x) != e or any(x.bisect_left(v) != e.index(v) for v in e):
            raise Violation('SortedKeyList(values) without key', e, list(x))
        return
    else:
        x = SortedKeyList(key=negreal)
        x += vals
    if x.key is not negreal:
        raise Violation('x.key', negreal, x.key)
    check_contents(x, e)
    q_light(x, e, k)


class By:
    """Orders by the distance from a number: the same class, another order."""

    def __init__(self, at):
        self.at = at

    def dist(self, v):
        return abs(v - self.at)

    __call__ = dist


def by(at):
    return lambda v: abs(v - at)


def bucket(v, size):
    return v // size


# pairs of key functions of the same type, name and code that order differently
FACTORY = {
    'closure': (by(0), by(6)), 'bound': (By(0).dist, By(6).dist),
    'instance': (By(0), By(6)),
    'partial': (partial(bucket, size=3), partial(bucket, size=-2)),
    'default': (lambda v, a=0: abs(v - a), lambda v, a=5: abs(v - a)),
    'function': (lambda v: -v, lambda v: v % 4),
}


def other_key(case, st):
    """A keyed list filled from a sorted container that is ordered by another key
    function made by the same factory: the list's own key decides."""
    fam, n, how, src, load = case
    fa, fb = FACTORY[fam]
    vals = [i * 5 % n - 2 for i in range(n)] + list(range(0, n, 4))
    if src == 'keylist':
        y = SortedKeyList(vals, key=fb)
    elif src == 'same-key':
        y = SortedKeyList(vals, key=fa)
    elif src == 'list':
        y = SortedList(vals)
    elif src == 'set':
        y = SC.SortedSet(vals, key=fb)
    elif src == 'dict':
        y = SC.SortedDict(fb, ((v, None) for v in vals))
    elif src == 'keys':
        y = SC.SortedDict(fb, ((v, None) for v in vals)).keys()
    else:
        y = iter(SortedKeyList(vals, key=fb))
    if load and hasattr(y, '_reset'):
        y._reset(load)
    given = sorted(set(vals), key=fb) if src in ('set', 'dict', 'keys') else sorted(
        vals, key={'same-key': fa, 'list': None}.get(src, fb))
    if src in ('set', 'dict', 'keys'):
        given = list(y)
    first = list(range(n + 3)) if how.endswith('full') else []
    x = SortedKeyList(first, key=fa)
    if load:
        x._reset(load)
    m = sorted(first, key=fa)
    st.add('transitions')
    st.kind(fam)
    op = how.split()[0]
    if op == 'update':
        x.update(y)
        e = m + given
    elif op == 'iadd':
        x += y
        e = m + given
    elif op == 'add':
        if src == 'iter':
            return
        x = x + y
        e = m + given
    elif op == 'radd':
        # sorted lists on the left are their own results
        if src not in ('set', 'keys'):
            return
        x = x.__radd__(y)
        e = m + given
    elif op == 'ctor':
        x = SortedKeyList(y, key=fa)
        e = given
    else:
        x.__init__(y, key=fa)
        e = given
    e = sorted(e, key=fa)
    got = list(x)
    if op in ('add', 'radd', 'update', 'iadd'):
        good = sorted(got) == sorted(e) and list(map(fa, got)) == list(map(fa, e))
        if op == 'update' and not first:
            good = got == e
    else:
        good = got == e
    if not good or x.key is not fa:
        raise Violation('%r' % (case,), e, got)
    x._check()
    for v in got:
        if v not in x or got[x.index(v)] != v or x.count(v) != got.count(v):
            raise Violation('%r: %r is found' % (case, v), True, False)
    x.add(1)
    got = list(x)
    if list(map(fa, got)) != sorted(map(fa, got)):
        raise Violation('%r: after add' % (case,), sorted(got, key=fa), got)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_basic,)
    kind = 'key'
    cov.bfs('full-distinct', ListSys(
        kind, 4, 14 if deep else 11, opset='full', battery=B,
        slices='full' if deep else 'few'))
    cov.bfs('core-distinct', ListSys(kind, 4, 24 if deep else 19, battery=B))
    cov.bfs('full-ties', ListSys(
        kind, 4, 8 if deep else 6, distinct=False, kmax=2, emax=2, opset='full',
        battery=B))
    cov.bfs('full-one-class', ListSys(
        kind, 4, 10 if deep else 8, distinct=False, kmax=1, emax=2, opset='full',
        battery=B, maxbatch=2))
    cov.bfs('core-ties', ListSys(
        kind, 4, 14 if deep else 12, distinct=False, kmax=3, emax=1, battery=B))
    cov.bfs('core-ties2', ListSys(
        kind, 4, 9 if deep else 7, distinct=False, kmax=2, emax=2, battery=B))
    cov.bfs('core-asc', ListSys('keyasc', 5, 20 if deep else 16, battery=B))
    cov.cases('key-collisions', 'n <= %d unequal values in 1..3 order classes, loads '
              '4,5; every value and absent twins' % (40 if deep else 26),
              [(n, c, load, op) for n in range(0, 41 if deep else 27)
               for c in (1, 2, 3) for load in (4, 5)
               for op in ('remove', 'discard', 'contains', 'count', 'index')],
              ties_case)
    cov.cases('constructors', 'all ways to build, n <= 12',
              [(h, n) for h in ('ctor', 'ctor-pos', 'ctor-gen', 'SortedList(key)',
                                'alias', 'identity', 'iadd') for n in range(13)],
              make_case)
    cov.cases('histories', 'growth x shrink x read patterns',
              hist_cases((kind, 'keyasc'), (4, 5, 7) if deep else (4,),
                         90 if deep else 60),
              partial(run_hist, battery=(q_light, q_basic)))
    cov.cases('bulk', 'bulk-built, every position, one operation',
              bulk_cases((kind,), (4, 5), (9, 17, 33, 65, 130) if deep
                         else (9, 17, 33, 66)),
              partial(op_case, battery=(q_light,)))
    cov.cases('default-load', 'default load factor around 1000, 2000, 3000, 4001',
              default_cases((kind,)), partial(op_case, battery=(q_some_ints,)))
    cov.cases('domains', 'keyed values of many kinds: every history of %d calls' %
              (3 if deep else 2), list_cases(True, 3 if deep else 2), list_case)
    cov.cases('other-keys', 'keyed lists filled from sorted containers ordered by a '
              'different key function of the same make', [
                  (fam, n, how, src, load) for fam in FACTORY
                  for n in (1, 2, 3, 5, 9, 12, 20, 41) + ((90, 160) if deep else ())
                  for how in ('ctor', 'init', 'init full', 'update', 'update full',
                              'iadd', 'iadd full', 'add', 'add full', 'radd full')
                  for src in ('keylist', 'same-key', 'list', 'set', 'dict', 'keys',
                              'iter') for load in (None, 4)], other_key)
    cov.cases('wide', 'lists of 16 to 1000 segments in three layouts, nine operations '
              'in every part of them, twice and thrice',
              wide_cases((kind,), (68, 131, 260, 520, 1030, 2060) if deep else (68, 260, 1030)),
              partial(wide_case, battery=(w_contents, w_check)), timeout=300)
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts, nine '
              'operations in every part of them, twice and thrice',
              runs_cases(('key',), (23, 51, 96, 181, 370) if deep else (23, 51, 96)),
              partial(wide_case, battery=(w_contents, w_check,)), timeout=300)
    cov.cases('operands', 'every form of operand x sizes x overlap x load: keyed list',
              matrix_cases(deep, ('neg', 'mod'), (4, None)),
              partial(matrix_list_case, part='contents'), timeout=300)
    cov.cases('operands-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('neg', 'mod')],
              partial(matrix_list_case, part='contents'), timeout=300)
    return cov.result()
