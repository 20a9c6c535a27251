"""C14 Set algebra and set comparisons equal those of plain sets."""
from functools import partial
from collections import deque
from itertools import product

from ..core import Cov, Quiet, SortedDict, SortedList, SortedSet, Violation
from ..lists import fmt, negreal, outcome
from ..dicts import CMPS, OPS
from ..sets import ASet, SetSys, check_set
from ..matrix import matrix_cases, matrix_large
from ..matrix import set_case as matrix_set_case

KEYS = {'none': None, 'neg': negreal}
METHODS = ('union', 'intersection', 'difference', 'symmetric_difference')


def elem(kn, i):
    return complex(i // 2, i % 2) if kn == 'neg' else float(i)


def result(text, r, exp, key, fresh_from=()):
    """A new SortedSet of exactly the expected members, in order, self-consistent."""
    if type(r) is not SortedSet:
        raise Violation('%s: result type' % text, SortedSet, type(r))
    order = list(r)
    if len(order) != len(exp) or set(order) != exp or len(r) != len(exp):
        raise Violation(text, sorted(exp, key=key), order)
    for a, b in zip(order, order[1:]):
        x, y = (key(a), key(b)) if key else (a, b)
        if y < x:
            raise Violation('%s: not sorted' % text, sorted(exp, key=key), order)
    for v in exp:
        if v not in r:
            raise Violation('%s: %r in result' % (text, v), True, False)
    for i, v in enumerate(order):
        if r[i] != v or r.index(v) != i:
            raise Violation('%s: result[%d]' % (text, i), v, r[i])
    for o in fresh_from:
        if r is o:
            raise Violation('%s: returns an operand' % text)
    with Quiet():
        o = outcome(r._check)
    if o[0] == 'err':
        raise Violation('%s: result._check()' % text, 'passes', fmt(o))


def form(name, vals, key):
    if name == 'ss':
        return SortedSet(vals, key=key)
    if name == 'set':
        return set(vals)
    if name == 'frozen':
        return frozenset(vals)
    if name == 'aset':
        return ASet(vals)
    if name == 'keys':
        return dict.fromkeys(vals).keys()
    if name == 'sdkeys':
        # a dict without key function: views of keyed dicts are outside C12 and C14
        return SortedDict(dict.fromkeys(vals)).keys()
    if name == 'list':
        return list(vals) + list(vals)[:1]
    if name == 'gen':
        return (v for v in vals)
    if name == 'sl':
        return SortedList(vals, key=key)
    if name == 'tuple':
        return tuple(vals)
    raise KeyError(name)


SETTY = ('ss', 'set', 'frozen', 'aset', 'keys', 'sdkeys')
ITER = SETTY + ('list', 'gen', 'sl', 'tuple')
NARY = tuple(f for f in ITER if f != 'sdkeys')


def subset(bits, kn, n):
    return [elem(kn, i) for i in range(n) if bits >> i & 1]


def pair_case(case, st):
    """All pairs of subsets: operators both sides, methods, comparisons."""
    a, b, n, kn = case
    key = KEYS[kn]
    A, B = subset(a, kn, n), subset(b, kn, n)
    sa = set(A)
    sb = set(B)
    ss = SortedSet(A, key=key)
    before = list(ss)

    def same():
        if list(ss) != before or len(ss) != len(before) or ss != sa:
            raise Violation('operand changed %r' % (case,), before, list(ss))
    for f in SETTY:
        if f == 'sdkeys' and kn != 'none':
            continue
        for sym, op, _ in OPS:
            o = form(f, B, key)
            text = 'SortedSet(%r) %s %s(%r)' % (A, sym, f, B)
            result(text, op(ss, o), op(sa, sb), key, (ss, o))
            if set(o) != sb or len(o) != len(sb):
                raise Violation('%s changed its operand' % text, B, list(o))
            same()
            text = '%s(%r) %s SortedSet(%r)' % (f, B, sym, A)
            r = op(o, ss)
            if f in ('set', 'frozen', 'ss'):
                result(text, r, op(sb, sa), key, (ss, o))
            elif set(r) != op(sb, sa) or len(r) != len(op(sb, sa)):
                raise Violation(text, op(sb, sa), r)
            if set(o) != sb:
                raise Violation('%s changed its operand' % text, B, list(o))
            same()
            st.add('transitions', 2)
        o = form(f, B, key)
        for sym, op in CMPS:
            for x, y, p, q in ((ss, o, sa, sb), (o, ss, sb, sa)):
                r = op(x, y)
                if r is not op(p, q):
                    raise Violation('%s %s %s for %r, %r (%s)' % (
                        type(x).__name__, sym, type(y).__name__, p, q, f),
                        op(p, q), r)
                st.add('transitions')
    for f in ITER:
        if f == 'sdkeys' and kn != 'none':
            continue
        for me in METHODS:
            o = form(f, B, key)
            r = getattr(ss, me)(o)
            result('SortedSet(%r).%s(%s %r)' % (A, me, f, B), r,
                   getattr(sa, me)(sb), key, (ss, o))
            same()
            st.add('transitions')
        for me in ('isdisjoint', 'issubset', 'issuperset'):
            r = getattr(ss, me)(form(f, B, key))
            if r is not getattr(sa, me)(sb):
                raise Violation('SortedSet(%r).%s(%s %r)' % (A, me, f, B),
                                getattr(sa, me)(sb), r)
            same()
    # the result is independent of both operands
    for sym, op, _ in OPS:
        o = form('ss', B, key)
        r = op(ss, o)
        e = list(r)
        r.add(elem(kn, 99))
        same()
        if list(o) != list(form('ss', B, key)):
            raise Violation('result of %s shares state with its operand' % sym)
        r = op(ss, o)
        o.add(elem(kn, 98))
        if list(r) != e:
            raise Violation('result of %s shares state with its operand' % sym, e,
                            list(r))


def nary_case(case, st):
    """Methods with zero to three iterables of mixed types."""
    a, bs, kn, rot = case
    n = 3
    key = KEYS[kn]
    A = subset(a, kn, n)
    ss = SortedSet(A, key=key)
    before = list(ss)
    for me in METHODS[:3]:
        args = [form(NARY[(i * 2 + rot) % len(NARY)], subset(b, kn, n), key)
                for i, b in enumerate(bs)]
        exp = getattr(set(A), me)(*[set(subset(b, kn, n)) for b in bs])
        r = getattr(ss, me)(*args)
        result('SortedSet(%r).%s(%s)' % (A, me, [subset(b, kn, n) for b in bs]), r,
               exp, key, (ss,))
        if list(ss) != before:
            raise Violation('operand changed %r' % (case,), before, list(ss))
        for b, x in zip(bs, args):
            if hasattr(x, '__len__') and set(x) != set(subset(b, kn, n)):
                raise Violation('argument changed %r' % (case,))
        st.add('transitions')
    up = SortedSet(A, key=key)
    exp = set(A)
    for me in ('update', 'intersection_update', 'difference_update'):
        args = [form(NARY[(i * 2 + rot + 1) % len(NARY)], subset(b, kn, n), key)
                for i, b in enumerate(bs)]
        up = SortedSet(A, key=key)
        exp = set(A)
        getattr(up, me)(*args)
        getattr(exp, me)(*[set(subset(b, kn, n)) for b in bs])
        check_plain('%s %r' % (me, case), up, exp, key)


def check_plain(text, r, exp, key):
    if set(r) != exp or len(r) != len(exp) or len(list(r)) != len(exp):
        raise Violation(text, exp, list(r))
    with Quiet():
        o = outcome(r._check)
    if o[0] == 'err':
        raise Violation('%s _check' % text, 'passes', fmt(o))


NONSETS = (5, None, 'ab', '', [], [1.0], (), (1.0,), {}, {1.0: 2}, 1.5, deque(), object())


def nonset_case(case, st):
    a, i, kn = case
    A = subset(a, kn, 3)
    ss = SortedSet(A, key=KEYS[kn])
    x = NONSETS[i]
    for y in (x, list(A)) if i == 4 else (x,):
        if ss == y or y == ss or not ss != y or not y != ss:
            raise Violation('SortedSet == %r' % (y,), False, True)
        for sym, op in CMPS[2:]:
            for l, r in ((ss, y), (y, ss)):
                o = outcome(op, l, r)
                if o[0] != 'err' or not issubclass(o[1], TypeError):
                    raise Violation('%r %s %r' % (l, sym, r), 'TypeError', fmt(o))
    if not hasattr(x, '__iter__'):
        for sym, op, _ in OPS:
            for l, r in ((ss, x), (x, ss)):
                o = outcome(op, l, r)
                if o[0] != 'err' or not issubclass(o[1], TypeError):
                    raise Violation('%r %s %r' % (l, sym, r), 'TypeError', fmt(o))
    if list(ss) != list(SortedSet(A, key=KEYS[kn])):
        raise Violation('operand changed')


def q_algebra(b, m, kind):
    """Algebra in every state of the search (many segments, warm or cold index)."""
    ss, key = b.ss, kind.key
    order = list(ss)
    n = len(order)
    extra = [kind.elem(-50.0, 0), kind.elem(60.0, 0)]
    others = [order[::2], order[1::2] + extra, extra, order, order[:n // 2], [],
              order[n // 2:] + extra[:1]]
    for oth in others:
        so = set(oth)
        for arg in (so, SortedSet(oth, key=key)):
            for sym, op, _ in OPS:
                result('ss %s %r' % (sym, oth), op(ss, arg), op(m, so), key, (ss, arg))
                result('%r %s ss' % (oth, sym), op(arg, ss), op(so, m), key, (ss, arg))
            for sym, op in CMPS:
                if op(ss, arg) is not op(m, so) or op(arg, ss) is not op(so, m):
                    raise Violation('ss %s %r' % (sym, oth), op(m, so), op(ss, arg))
        for me in METHODS:
            result('ss.%s(%r)' % (me, oth), getattr(ss, me)(iter(oth)),
                   getattr(m, me)(so), key, (ss,))
        for me in METHODS[:3]:
            result('ss.%s(%r, %r)' % (me, oth, extra), getattr(ss, me)(oth, extra),
                   getattr(m, me)(so, extra), key, (ss,))
    for me in METHODS[:3]:
        result('ss.%s()' % me, getattr(ss, me)(), set(m), key, (ss,))
    for sym, op, _ in OPS:
        result('ss %s ss' % sym, op(ss, ss), op(m, m), key, (ss,))
    if list(ss) != order or len(ss) != n:
        raise Violation('operand changed by set algebra', order, list(ss))


def big_case(case, st):
    n, k, kn, load = case
    key = (lambda v: -v) if kn == 'neg' else None
    A = [i * 2 for i in range(n)]
    ss = SortedSet(A, key=key)
    if load:
        ss._reset(load)
    sa = set(A)
    for B in (range(0, 2 * n, k), range(-5, k), range(n, 3 * n), [1], A[:: k + 1]):
        sb = set(B)
        for sym, op, _ in OPS:
            for r, e in ((op(ss, sb), op(sa, sb)), (op(sb, ss), op(sb, sa))):
                if list(r) != sorted(e, key=key) or len(r) != len(e):
                    raise Violation('%r %s %r' % (case, sym, B), sorted(e, key=key),
                                    list(r))
                r._check()
        for me in METHODS:
            r, e = getattr(ss, me)(iter(B)), getattr(sa, me)(B)
            if list(r) != sorted(e, key=key):
                raise Violation('%r %s %r' % (case, me, B), sorted(e, key=key), list(r))
        for sym, op in CMPS:
            for s2 in (sb, SortedSet(sb), sa | sb, SortedSet(sa & sb, key=key)):
                p = set(s2)
                if op(ss, s2) is not op(sa, p) or op(s2, ss) is not op(p, sa):
                    raise Violation('%r %s' % (case, sym))
    if list(ss) != sorted(A, key=key):
        raise Violation('operand changed %r' % (case,))


def sized_case(case, st):
    """Pairs of sets of very different sizes: one operand inside, overlapping or outside
    the other, each keyed or not, on either side; class, key and order of every result."""
    na, nb, rel, ka, kb, load = case
    keys = {'none': None, 'neg': lambda v: -v, 'mod': lambda v: (v % 3, v)}
    ka, kb = keys[ka], keys[kb]
    big, small = max(na, nb), min(na, nb)
    B = [2 * i for i in range(big)]
    S = {'inside': lambda: B[:small], 'end': lambda: B[big - small:],
         'middle': lambda: B[big // 2:][:small], 'spread': lambda: B[::big // small][:small]
         if small else [],
         'overlap': lambda: B[:small // 2] + [2 * i + 1 for i in range(small - small // 2)],
         'outside': lambda: [2 * i + 1 for i in range(small)],
         'beyond': lambda: [2 * big + i for i in range(small)]}[rel]()
    A, C = (B, S) if na >= nb else (S, B)
    x, y = SortedSet(key=ka), SortedSet(key=kb)
    if load:
        x._reset(load)
        y._reset(load)
    x.update(A)
    y.update(C)
    sx, sy = set(A), set(C)
    lx, ly = list(x), list(y)

    def test(text, r, exp, key):
        text = '%r %s' % (case, text)
        if type(r) is not SortedSet:
            raise Violation('%s: result type' % text, SortedSet, type(r))
        if r.key is not key:
            raise Violation('%s: result key' % text, key, r.key)
        if list(r) != sorted(exp, key=key) or len(r) != len(exp) or set(r) != exp:
            raise Violation(text, sorted(exp, key=key), list(r))
        if r is x or r is y:
            raise Violation('%s: returns an operand' % text)
        for i in (0, len(r) // 2, len(r) - 1):
            if len(r) and (r.index(r[i]) != i or r[i] not in r):
                raise Violation('%s: position %d' % (text, i))
        r._check()
        for v in (-7, 4 * big + 99):
            r.add(v)
            if v not in r or v in x or v in y:
                raise Violation('%s: add to the result' % text)
        if list(x) != lx or list(y) != ly:
            raise Violation('%s: operand changed' % text)
        st.add('transitions')
    forms = (('SortedSet', y), ('set', sy), ('frozenset', frozenset(sy)),
             ('keys', dict.fromkeys(C).keys()))
    for nm, o in forms:
        for sym, op, _ in OPS:
            test('ss %s %s' % (sym, nm), op(x, o), op(sx, sy), ka)
            if nm in ('set', 'frozenset'):
                r = op(o, x)
                test('%s %s ss' % (nm, sym), r, op(sy, sx), ka)
        for sym, op in CMPS:
            if op(x, o) is not op(sx, sy) or op(o, x) is not op(sy, sx):
                raise Violation('%r ss %s %s' % (case, sym, nm), op(sx, sy), op(x, o))
    for nm, o in forms + (('list', C), ('reversed', C[::-1]), ('twice', C + C),
                          ('SortedList', SortedList(C))):
        for me in METHODS:
            test('ss.%s(%s)' % (me, nm), getattr(x, me)(o), getattr(sx, me)(sy), ka)
            test('ss.%s(iter %s)' % (me, nm), getattr(x, me)(iter(o)),
                 getattr(sx, me)(sy), ka)
        for me in ('isdisjoint', 'issubset', 'issuperset'):
            if getattr(x, me)(o) is not getattr(sx, me)(sy):
                raise Violation('%r ss.%s(%s)' % (case, me, nm), getattr(sx, me)(sy))
    if list(x) != lx or list(y) != ly:
        raise Violation('%r operand changed' % (case,))


def compare_case(case, st):
    """All six comparisons of a set with the same set after one or two changes anywhere."""
    n, ka, kb, load = case
    keys = {'none': None, 'neg': lambda v: -v, 'mod': lambda v: (v % 3, v)}
    A = [2 * i for i in range(n)]
    x = SortedSet(key=keys[ka])
    if load:
        x._reset(load)
    x.update(A)
    sx = set(A)
    at = sorted({0, 1, 3, n // 3, n // 2, n - 4, n - 2, n - 1} & set(range(n)))
    if n <= 9:
        at = range(n)
    new = sorted({-1, 1, n | 1, 2 * n - 3, 2 * n - 1, 2 * n + 7})
    edits = [((), ())] + [((i,), ()) for i in at] + [((), (v,)) for v in new]
    edits += [((i,), (v,)) for i in at for v in new]
    edits += [((i, j), ()) for i in at for j in at if i < j]
    edits += [((), (u, v)) for u in new for v in new if u < v]
    edits += [((i,), (u, v)) for i in at for u in new for v in new if u < v]
    edits += [((i, j), (v,)) for i in at for j in at if i < j for v in new]
    for out, add in edits:
        sy = sx.difference(A[i] for i in out).union(add)
        y = SortedSet(key=keys[kb])
        if load:
            y._reset(load)
        y.update(sy)
        for f, o in (('SortedSet', y), ('set', sy), ('frozenset', frozenset(sy)),
                     ('keys', dict.fromkeys(sy).keys())):
            for sym, op in CMPS:
                for a, b, p, q in ((x, o, sx, sy), (o, x, sy, sx)):
                    r = op(a, b)
                    if r is not op(p, q):
                        raise Violation('%r without the positions %r and with %r: %s %s %s'
                                        % (case, out, add, type(a).__name__, sym,
                                           type(b).__name__), op(p, q), r)
            for me in ('isdisjoint', 'issubset', 'issuperset'):
                if getattr(x, me)(o) is not getattr(sx, me)(sy):
                    raise Violation('%r without the positions %r and with %r: %s(%s)' % (
                        case, out, add, me, f), getattr(sx, me)(sy))
                if f == 'SortedSet' and getattr(y, me)(x) is not getattr(sy, me)(sx):
                    raise Violation('%r without the positions %r and with %r: right %s' % (
                        case, out, add, me), getattr(sy, me)(sx))
        st.add('transitions', 24)
    if list(x) != sorted(A, key=keys[ka]) or len(x) != n:
        raise Violation('%r operand changed' % (case,))


RELS = ('inside', 'end', 'middle', 'spread', 'overlap', 'outside', 'beyond')


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    n = 6 if deep else 5
    cov.cases('pairs', 'all pairs of subsets of %d elements x operand types x operators, '
              'methods, comparisons, both sides' % n,
              [(a, b, n, kn) for kn in KEYS for a in range(1 << n)
               for b in range(1 << n)], pair_case)
    sub = range(8)
    cov.cases('n-ary', 'zero to three iterables, all subsets of 3 elements',
              [(a, bs, kn, rot) for kn in KEYS for a in sub for r in range(4)
               for rot in ((0, 4, 7) if deep or r < 3 else (a + r,))
               for bs in product(sub, repeat=r)], nary_case)
    cov.cases('non-sets', 'operands that are not sets',
              [(a, i, kn) for kn in KEYS for a in range(8)
               for i in range(len(NONSETS))], nonset_case)
    cov.bfs('states', SetSys('num', 4, 16 if deep else 14, 'full', battery=(q_algebra,)))
    cov.bfs('states-key', SetSys('key', 4, 13 if deep else 11, 'full',
                                 battery=(q_algebra,)))
    cov.bfs('states-ties', SetSys('key', 4, 7 if deep else 5, 'full', emax=3, kmax=2,
                                  battery=(q_algebra,)))
    cov.cases('big', 'larger sets, all operators',
              [(s, k, kn, load) for s, load in ((30, 4), (75, 4), (150, 5), (1500, None),
                                                (2600, None))
               for k in (1, 2, 3, 7, 50) for kn in KEYS], big_case)
    sizes = (0, 1, 2, 3, 5, 9, 12, 40) + ((130, 400) if deep else (130,))
    cov.cases('sizes', 'operands of very different sizes, keys on both sides',
              [(a, b, r, ka, kb, load) for a in sizes for b in sizes for r in RELS
               for ka in ('none', 'neg', 'mod') for kb in ('none', 'neg', 'mod')
               for load in (4, None)], sized_case)
    cov.cases('sizes-large', 'the same beyond the default load',
              [(a, b, r, ka, kb, None) for a, b in ((2500, 3), (3, 2500), (2500, 450),
                                                    (450, 2500), (2500, 2400),
                                                    (1200, 2500))
               for r in RELS for ka in ('none', 'neg') for kb in ('none', 'neg')],
              sized_case)
    cov.cases('comparisons', 'a set compared with itself after up to three changes '
              'anywhere', [(n, ka, kb, load) for n in (
                  1, 2, 3, 5, 6, 9, 20, 33, 64, 65, 70, 130, 300) + (
                  (700, 2100) if deep else ())
                  for ka in ('none', 'neg', 'mod') for kb in ('none', 'neg', 'mod')
                  for load in (4, None)], compare_case)
    cov.cases('operands', 'every form of operand x sizes x overlap x load: new sets',
              matrix_cases(deep, ('none', 'neg'), (4, None)),
              partial(matrix_set_case, part='new'), timeout=300)
    cov.cases('operands-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('none', 'neg')],
              partial(matrix_set_case, part='new'), timeout=300)
    return cov.result(['a SortedSet compared with another *sequence* type that compares '
                       'as a sequence (SortedList) is covered by C15, not here'])
