"""C13 SortedSet is a set whose values iterate in sorted order."""
from functools import partial
from ..core import (Cov, SortedDict, SortedKeyList, SortedList, SortedSet, Violation)
from ..domains import assoc_case, assoc_cases
from ..sets import OPFORMS, SETFORMS, SetSys, q_check, q_setside
from ..matrix import matrix_cases, matrix_large
from ..matrix import set_case as matrix_set_case


def big_case(case, st):
    """Larger sets: every in-place operation with arguments of every size ratio."""
    n, load, keyed, op, frac, overlap = case
    key = (lambda v: -v) if keyed else None
    base = list(range(0, 2 * n, 2))
    ss = SortedSet(base, key=key)
    if load:
        ss._reset(load)
    held = (ss.bisect_left, ss.index, ss.isdisjoint, ss.issubset, ss.irange)
    m = set(base)
    k = max(1, int(n * frac))
    if overlap == 'in':
        arg = base[::max(1, n // k)][:k]
    elif overlap == 'out':
        arg = [2 * i + 1 for i in range(k)]
    else:
        arg = base[:k // 2] + [2 * i + 1 for i in range(k // 2 + 1)]
    ss[n // 2]
    getattr(ss, op)(iter(arg))
    getattr(m, op)(arg)
    for round_ in range(2):
        ref = sorted(m, key=key)
        if list(ss) != ref or len(ss) != len(ref) or ss != m:
            raise Violation('%r' % (case,), ref, list(ss))
        stride = 1 if n < 200 else 53
        for i in range(0, len(ref), stride):
            if (ss[i] != ref[i] or ss[i - len(ref)] != ref[i] or
                    held[0](ref[i]) != i or held[1](ref[i]) != i or ref[i] not in ss or
                    list(held[4](ref[i], ref[i])) != [ref[i]]):
                raise Violation('%r position %d' % (case, i), ref[i], ss[i])
        if held[2](m) != (not m) or not held[3](m):
            raise Violation('%r isdisjoint/issubset' % (case,))
        ss._check()
        for v in arg:
            ss.add(v)
            ss.discard(v - 1)
            m.add(v)
            m.discard(v - 1)


def ctor_case(case, st):
    form, n, keyed, pat = case
    key = (None, lambda v: -v, lambda v: v // 3)[keyed]
    vals = {'11': lambda: [(i * 7) % 11 for i in range(n)],
            'same': lambda: [4] * n, 'pairs': lambda: [i // 2 for i in range(n)],
            'three': lambda: [(i * 2) % 3 for i in range(n)],
            'down': lambda: list(range(n, 0, -1)), 'ends': lambda: list(range(n)) + [0],
            'twice': lambda: list(range(n)) * 2}[pat]()
    arg = {'list': lambda: vals, 'gen': lambda: iter(vals), 'set': lambda: set(vals),
           'frozen': lambda: frozenset(vals), 'ss': lambda: SortedSet(vals),
           'dict': lambda: dict.fromkeys(vals), 'none': lambda: None,
           'tuple': lambda: tuple(vals), 'str': lambda: ''.join(
               chr(97 + v) for v in vals), 'range': lambda: range(n),
           'keyed': lambda: SortedSet(vals, key=lambda v: v % 2),
           'keylist': lambda: SortedKeyList(vals, key=lambda v: v % 2),
           'sl': lambda: SortedList(vals),
           'views': lambda: SortedDict.fromkeys(vals).keys()}[form]()
    m = set() if form == 'none' else set(arg) if form in ('str', 'range') else set(vals)
    if form == 'str' and key:
        key = (None, lambda c: -ord(c), lambda c: ord(c) // 3)[keyed]
    ss = SortedSet(arg, key=key) if keyed else SortedSet(arg)
    for again in (False, True):
        got = list(ss)
        if (sorted(got) != sorted(m) or len(ss) != len(m) or ss.key is not key or
                key and list(map(key, got)) != sorted(map(key, m)) or
                not key and got != sorted(m)):
            raise Violation('SortedSet %r' % (case,), sorted(m, key=key), list(ss))
        ss.update([] if arg is None or form == 'gen' else arg)
    for i, v in enumerate(got):
        if ss[i] is not v or v not in ss or ss.count(v) != 1 or ss.index(v) != i:
            raise Violation('SortedSet %r [%d]' % (case, i), v, ss[i])
    ss._check()
    for v in got[::2]:
        ss.remove(v)
        if v in ss or v in list(ss):
            raise Violation('SortedSet %r, remove(%r)' % (case, v), False, True)
    if len(got) > 2 and list(ss) != got[1::2]:
        raise Violation('SortedSet %r after removals' % (case,), got[1::2], list(ss))
    if form == 'set' and arg is not None:
        ss.add(99)
        if 99 in arg or len(arg) != len(m):
            raise Violation('SortedSet shares the set it was given')


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_setside, q_check)
    cov.bfs('num', SetSys('num', 4, 14 if deep else 11, 'full', battery=B))
    cov.bfs('num-forms', SetSys('num', 4, 12 if deep else 9, 'full', battery=B,
                                forms=SETFORMS, opforms=OPFORMS))
    cov.bfs('num-core', SetSys('num', 4, 20 if deep else 16, battery=(q_setside,)))
    cov.bfs('key', SetSys('key', 4, 11 if deep else 9, 'full', battery=B))
    cov.bfs('key-ties', SetSys('key', 4, 8 if deep else 5, 'full', emax=3, kmax=2,
                               battery=B))
    cov.bfs('load5', SetSys('num', 5, 13 if deep else 9, 'full', battery=B))
    cov.cases('constructors', 'constructor argument forms',
              [(f, n, k, p) for f in ('list', 'gen', 'set', 'frozen', 'ss', 'dict', 'none',
                                      'tuple', 'str', 'range', 'keyed', 'keylist', 'sl',
                                      'views') for n in range(25) for k in (0, 1, 2)
               for p in ('11', 'same', 'pairs', 'three', 'down', 'ends', 'twice')],
              ctor_case)
    cov.cases('big', 'in-place operations x size ratio x overlap on larger sets',
              [(n, load, kd, op, fr, ov)
               for n, load in ((20, 4), (41, 4), (90, 5), (200, 4), (1200, None),
                               (2500, None))
               for kd in (False, True)
               for op in ('update', 'difference_update', 'intersection_update',
                          'symmetric_difference_update')
               for fr in (0.02, 0.24, 0.25, 0.26, 0.9, 1.5)
               for ov in ('in', 'out', 'mix')], big_case)
    cov.cases('domains', 'values of many kinds: every history of %d calls' %
              (3 if deep else 2), assoc_cases('set', 3 if deep else 2), assoc_case)
    cov.cases('operands', 'every form of operand x sizes x overlap x load: set, in place',
              matrix_cases(deep, ('none', 'neg'), (4, None)),
              partial(matrix_set_case, part='inplace'), timeout=300)
    cov.cases('operands-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('none', 'neg')],
              partial(matrix_set_case, part='inplace'), timeout=300)
    return cov.result()
