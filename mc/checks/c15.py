"""C15 List +, *, +=, *= and comparisons behave as on sorted sequences."""
from array import array
from collections import UserList, deque
from collections.abc import Sequence
from itertools import combinations_with_replacement, product

from ..core import (Cov, Quiet, SortedDict, SortedKeyList, SortedList, SortedSet,
                    Violation, clone, digest)
from ..dicts import CMPS
from ..domains import DOMAINS
from ..lists import (KINDS, ListSys, check_contents, fmt, negreal, outcome, q_light, q_struct,
                     realpart, same)
from ..wide import layouts


class Seq(Sequence):
    """A minimal foreign sequence."""

    def __init__(self, it):
        self.s = tuple(it)

    def __getitem__(self, i):
        return self.s[i]

    def __len__(self):
        return len(self.s)


def check_result(text, r, exp, x, kind, stable=True):
    """Same class, same key, exactly the expected values in order, functional."""
    if type(r) is not type(x):
        raise Violation('%s: type' % text, type(x), type(r))
    if r.key is not x.key:
        raise Violation('%s: key' % text, x.key, r.key)
    if r is x:
        raise Violation('%s returns its operand' % text)
    got = list(r)
    if stable:
        if not same(got, exp):
            raise Violation(text, exp, got)
    else:
        if len(got) != len(exp) or sorted(map(id, got)) != sorted(map(id, exp)) or [
                kind.okey(v) for v in got] != [kind.okey(v) for v in exp]:
            raise Violation(text, exp, got)
    q_light(r, got, kind)
    q_struct(r, got, kind)


def operands(m, kind):
    """Second operands: empty, smaller, larger, outside, inside, equal keys."""
    ks = sorted({kind.code(v)[0] for v in m}) or [0.0]
    lo, hi, mid = ks[0] - 1, ks[-1] + 1, (ks[0] + ks[-1]) / 2 + 0.25
    yield []
    yield [kind.elem(lo)]
    yield [kind.elem(hi), kind.elem(lo)]
    yield [kind.elem(mid), kind.elem(ks[-1]), kind.elem(ks[0]), kind.elem(mid)]
    yield [kind.elem(hi + i % 4, 0) for i in range(9)]


OTHER = ('list', 'tuple', 'gen', 'own', 'set', 'deque')


def as_form(f, vals, kind):
    if f == 'list':
        return list(vals)
    if f == 'tuple':
        return tuple(vals)
    if f == 'gen':
        return (v for v in vals)
    if f == 'own':
        return kind.make(vals)
    if f == 'set':
        return frozenset(vals)
    return deque(vals)


def q_ops(x, m, kind):
    """+ and * on both sides, += and *=."""
    d0 = digest(x)

    def unchanged(text):
        if digest(x) != d0:
            check_contents(x, m)
            q_light(x, m, kind)
            q_struct(x, m, kind)
    for vals in operands(m, kind):
        for f in OTHER:
            o = as_form(f, vals, kind)
            ov = vals if f in ('list', 'tuple', 'gen', 'deque') else list(o)
            exp = sorted(m + ov, key=kind.okey)
            text = 'x + %s(%r)' % (f, vals)
            r = x + o
            check_result(text, r, exp, x, kind)
            check_contents(x, m)
            unchanged(text)
            if f != 'gen' and list(o) != ov:
                raise Violation('%s changed its operand' % text, ov, list(o))
            r.add(kind.elem(0.123))
            r.clear()
            unchanged(text)
            if f != 'gen' and list(o) != ov:
                raise Violation('%s shares state with its operand' % text, ov, list(o))
            if f not in ('deque',):
                o = as_form(f, vals, kind)
                ov = vals if f in ('list', 'tuple', 'gen') else list(o)
                exp = sorted(ov + m, key=kind.okey)
                text = '%s(%r) + x' % (f, vals)
                # list, tuple and the like defer to x.__radd__
                r = o + x
                # the order of equal elements is only promised for x on the left
                check_result(text, r, exp, x, kind, stable=False)
                unchanged(text)
                if f != 'gen' and list(o) != ov:
                    raise Violation('%s changed its operand' % text, ov, list(o))
            if f in ('list', 'gen', 'own', 'tuple'):
                y = clone(x)
                z = y
                o = as_form(f, vals, kind)
                ov = list(o) if f == 'own' else vals
                y += o
                if y is not z:
                    raise Violation('x += other returns another object')
                exp = sorted(m + ov, key=kind.okey)
                check_contents(y, exp)
                q_light(y, exp, kind)
                q_struct(y, exp, kind)
    for n in (0, 1, 2, 3, -1):
        exp = sorted(m * n, key=kind.okey)
        r = x * n
        check_result('x * %d' % n, r, exp, x, kind)
        r.clear()
        unchanged('x * n')
        r = n * x
        check_result('%d * x' % n, r, exp, x, kind)
        unchanged('n * x')
        y = clone(x)
        z = y
        y *= n
        if y is not z:
            raise Violation('x *= n returns another object')
        check_contents(y, exp)
        q_light(y, exp, kind)
        q_struct(y, exp, kind)
        if y.key is not x.key:
            raise Violation('x *= n: key', x.key, y.key)
    r = x + x
    check_result('x + x', r, sorted(m + m, key=kind.okey), x, kind)
    unchanged('x + x')
    for o in (5, None):
        for f in (lambda: x + o, lambda: o + x, lambda: x.__iadd__(o),
                  lambda: x * None, lambda: x * 1.5, lambda: x.__imul__('a')):
            a = outcome(f)
            if a[0] != 'err' or not issubclass(a[1], TypeError):
                raise Violation('+/* with an unsuitable operand', 'TypeError', fmt(a))
    check_contents(x, m)
    unchanged('all operators')


SEQS = ('list', 'tuple', 'own', 'userlist', 'seq', 'deque')


def as_seq(f, vals, own):
    if f == 'own':
        return own(vals)
    return {'list': list, 'tuple': tuple, 'userlist': UserList, 'seq': Seq,
            'deque': deque}[f](vals)


def cmp_one(text, x, m, o, ov):
    for sym, op in CMPS:
        e = op(m, ov)
        for a, b, want in ((x, o, e), (o, x, op(ov, m))):
            r = outcome(op, a, b)
            if r[0] == 'err' or r[1] is not want:
                raise Violation('%s: %s %s %s for %r, %r' % (
                    text, type(a).__name__, sym, type(b).__name__, m, ov), want, fmt(r))


def q_cmp(x, m, kind):
    """Comparisons with every prefix, extension and one-element change, in every state.
    Values of keyed lists (complex) have no order: ==, != only."""
    if kind.keyed:
        for ov in (m, m[:-1], m + m[:1], m[::-1]):
            for f in SEQS:
                o = as_seq(f, ov, kind.make)
                lv = list(o)
                for a, b in ((x, o), (o, x)):
                    if (a == b) is not (m == lv) or (a != b) is not (m != lv):
                        raise Violation('%s == %s for %r, %r' % (
                            type(a).__name__, type(b).__name__, m, lv), m == lv, a == b)
        return
    n = len(m)
    for i in range(n + 1):
        for ov in (m[:i], m[:i] + [m[i - 1] + 0.5] + m[i:] if i else m + [0.0],
                   m[:i] + m[i + 1:], m[:i] + [-99.0] + m[i + 1:],
                   m[:i] + [99.0] + m[i + 1:], m[:i] + [99.0]):
            for f in SEQS:
                o = as_seq(f, ov, kind.make)
                cmp_one('state', x, m, o, list(o))
    cmp_one('itself', x, m, x, m)
    # lists of the very same segments but for one value
    for i in range(n):
        y = clone(x)
        y.remove(m[i])
        cmp_one('one removed', x, m, y, list(y))
        for d in (-0.5, 0.5, 0.0):
            z = clone(y)
            z.add(m[i] + d)
            cmp_one('one replaced', x, m, z, list(z))
    check_contents(x, m)


def layout_case(case, st):
    """Lists of many segments, differing at one position or not at all, laid out alike
    or differently."""
    kind, n, la, lb = case
    k = KINDS[kind]
    x, m = layouts(kind, n, la)
    y0, m2 = layouts(kind, n, lb)
    if lb != la and m != m2:
        # same values, other segments
        y0 = k.make()
        y0._reset(4)
        for i in range(n):
            y0.add(m[i * 7 % n])
        m2 = list(y0)
    for i in [None] + list(range(n)):
        for d in ((0,) if i is None else (-0.5, 0.5, 'del', 'dup')):
            y = clone(y0)
            if i is not None:
                y.remove(m2[i]) if d != 'dup' else None
                if d != 'del':
                    y.add(k.elem(m2[i].real + (0 if d == 'dup' else d)))
            lv = list(y)
            for sym, op in CMPS[:2] if k.keyed else CMPS:
                for a, b, e in ((x, y, op(m, lv)), (y, x, op(lv, m))):
                    st.add('transitions')
                    r = op(a, b)
                    if r is not e:
                        raise Violation('%r: x %s y, y has %s at %r' % (case, sym, d, i),
                                        e, r)
    st.kind('%s/%s' % (la, lb))


def pair_case(case, st):
    """Every pair of small multisets, compared and added, list and key list."""
    a, b = case
    for own in (SortedList, lambda v: SortedKeyList(v, key=lambda e: -e),
                lambda v: SortedList(v, key=lambda e: e)):
        x = own(a)
        m = list(x)
        for f in SEQS + ('range', 'set', 'keys'):
            if f == 'range':
                o = range(len(b))
            elif f == 'set':
                o = SortedSet(b)
            elif f == 'keys':
                o = SortedDict.fromkeys(b).keys()
                if list(o) != sorted(set(b)):
                    raise Violation('keys', b, list(o))
            else:
                o = as_seq(f, b, own)
            if f in ('set', 'keys'):
                # other *set* types decide the comparison themselves when on the left
                lv = list(o)
                for sym, op in CMPS:
                    r = op(x, o)
                    if r is not op(m, lv):
                        raise Violation('%r %s %r' % (x, sym, o), op(m, lv), r)
                continue
            cmp_one('pair', x, m, o, list(o))
            st.add('transitions')
        for y in (SortedList(b), SortedKeyList(b, key=lambda e: e % 2)):
            cmp_one('pair', x, m, y, list(y))


def foreign_case(case, st):
    """Comparisons with the sequences Python has besides lists: ranges of every start,
    step and length, strings, bytes, arrays, memory views, deques, tuples."""
    a, keyed = case
    x = SortedKeyList(a, key=lambda e: -e) if keyed else SortedList(a)
    m = list(x)
    n = len(m)
    for start in range(-1, 3):
        for step in (1, 2, 3, -1, -2):
            for k in sorted({0, 1, 2, n - 1, n, n + 1, n + 2}):
                if k >= 0:
                    o = range(start, start + step * k, step)
                    cmp_one('range', x, m, o, list(o))
                    st.add('transitions')
    near = [m, m[:-1], m + m[-1:], m[1:], m + [9]] + [
        m[:i] + [m[i] + d] + m[i + 1:] for i in range(n) for d in (-1, 1)]
    for b in near:
        for f in (tuple, deque, UserList, Seq, lambda v: array('b', v),
                  lambda v: memoryview(array('b', v))):
            o = f(b)
            if isinstance(o, Sequence):
                cmp_one('sequence', x, m, o, list(o))
                st.add('transitions')
        if all(0 <= v for v in b):
            cmp_one('bytes', x, m, bytes(b), b)
            cmp_one('bytearray', x, m, bytearray(b), b)
            s = ''.join('abcdefghijklmnop'[v] for v in b)
            t = ['abcdefghijklmnop'[v] for v in m]
            y = SortedList(t)
            cmp_one('str', y, t if not keyed else list(y), s, list(s))
    st.kind('n=%d' % n)


NONSEQ = (5, None, {1}, frozenset(), {}, {1: 2}, object(), 1.5, iter([]), (i for i in ()))


def nonseq_case(case, st):
    a, i, keyed = case
    x = SortedList(a, key=(lambda e: -e) if keyed else None)
    o = NONSEQ[i]
    if x == o or o == x or not x != o or not o != x:
        raise Violation('%r == %r' % (x, o), False, True)
    for nm in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
        if getattr(x, nm)(o) is not NotImplemented:
            raise Violation('%s(%r)' % (nm, o), NotImplemented, getattr(x, nm)(o))
    for sym, op in CMPS[2:]:
        for l, r in ((x, o), (o, x)):
            a_ = outcome(op, l, r)
            if a_[0] != 'err' or not issubclass(a_[1], TypeError):
                raise Violation('%r %s %r' % (l, sym, r), 'TypeError', fmt(a_))


def mutate_case(case, st):
    """Results of operators and operands stay independent; default load factor."""
    n, k, keyed, load = case
    key = (lambda e: -e) if keyed else None
    A = [float(i % 97 + i // 7) for i in range(n)]
    B = [float(i * 3) for i in range(k)]
    x = SortedList(A, key=key)
    if load:
        x._reset(load)
    m = sorted(A, key=key)
    o = SortedList(B, key=key)
    for text, f, e in (('x + o', lambda: x + o, A + B), ('x * 3', lambda: x * 3, A * 3),
                       ('3 * x', lambda: 3 * x, A * 3), ('x + []', lambda: x + [], A),
                       ('x * 1', lambda: x * 1, A), ('list + x', lambda: B + x, A + B)):
        r = f()
        e = sorted(e, key=key)
        if type(r) is not type(x) or r.key is not key or list(r) != e or len(r) != len(e):
            raise Violation('%s %r' % (text, case), e, list(r))
        for i in range(0, len(e), max(1, len(e) // 150)):
            if r[i] != e[i] or r[i - len(e)] != e[i]:
                raise Violation('%s %r [%d]' % (text, case, i), e[i], r[i])
        r._check()
        while len(r) > len(e) // 2:
            r.pop(len(r) // 3)
        r.update([1e9] * 5)
        if list(x) != m or list(o) != sorted(B, key=key):
            raise Violation('%s %r shares state' % (text, case), m, list(x))
        r = f()
        x.add(5.5)
        if list(r) != e:
            raise Violation('%s %r shares state' % (text, case), e, list(r))
        x.remove(5.5)
        x._check()
    y = x
    y += B
    y *= 2
    if y is not x or list(x) != sorted((A + B) * 2, key=key):
        raise Violation('in place %r' % (case,), sorted((A + B) * 2, key=key), list(x))
    x._check()


class PlainSub(SortedList):
    pass


class PlainSub2(SortedList):
    pass


class KeySub(SortedKeyList):
    pass


class KeySub2(SortedKeyList):
    pass


def class_case(case, st):
    """Operands of a base class and its subclasses, empty or not: the result has the
    class and key of the operand whose method Python calls."""
    ca, cb, na, nb = case
    key = (lambda e: -e) if issubclass(ca, SortedKeyList) else None
    keyb = (lambda e: e % 3) if issubclass(cb, SortedKeyList) else None
    A = [i * 7 % (na + 1) for i in range(na)]
    B = [i * 5 % (nb + 2) for i in range(nb)]

    def make(cls, vals, k):
        return cls(vals, key=k) if k else cls(vals)
    x, y = make(ca, A, key), make(cb, B, keyb)
    # Python asks the right operand first when it is of a strict subclass that
    # provides its own reflected method
    jobs = []
    if not (issubclass(cb, ca) and ca is not cb):
        jobs.append(('x + y', lambda: x + y, A + B, ca, key))
    elif cb in (PlainSub, PlainSub2, KeySub, KeySub2) and not (
            issubclass(cb, SortedKeyList) and not issubclass(ca, SortedKeyList)):
        # the reflected method is inherited unchanged: the left operand's is called
        jobs.append(('x + y', lambda: x + y, A + B, ca, key))

    def iadd():
        z = x.copy()
        z += y
        return z
    jobs += [('x += y', iadd, A + B, ca, key),
             ('x.__add__(y)', lambda: x.__add__(y), A + B, ca, key),
             ('x.__radd__(y)', lambda: x.__radd__(y), A + B, ca, key),
             ('x + list', lambda: x + B, A + B, ca, key),
             ('list + x', lambda: B + x, A + B, ca, key),
             ('x + tuple', lambda: x + tuple(B), A + B, ca, key),
             ('x * 2', lambda: x * 2, A * 2, ca, key),
             ('2 * x', lambda: 2 * x, A * 2, ca, key),
             ('x * 0', lambda: x * 0, [], ca, key), ('x * 1', lambda: x * 1, A, ca, key),
             ('cls(y)', lambda: make(ca, y, key), B, ca, key)]
    for text, f, e, cls, k in jobs:
        r = f()
        st.add('transitions')
        if type(r) is not cls or r.key is not k:
            raise Violation('%s %r: class and key' % (text, case), (cls, k),
                            (type(r), r.key))
        e = sorted(sorted(e), key=k)
        got = list(r)
        ks = [k(v) for v in got] if k else got
        if sorted(got) != sorted(e) or ks != sorted(ks):
            raise Violation('%s %r' % (text, case), e, got)
        r._check()
        r.add(3)
        r.clear()
        if list(x) != sorted(A, key=key) or list(y) != sorted(B, key=keyb):
            raise Violation('%s %r changed an operand' % (text, case))
    st.kind('%s/%s' % (ca.__name__, cb.__name__))


COMPARED = ('str', 'bytes', 'tuple', 'int', 'mixed', 'bool', 'list', 'date', 'delta',
            'intsub', 'frac', 'ci')


def order_case(case, st):
    """Comparison of lists of values of many kinds: the very rules of list comparison."""
    name, a = case
    vals = DOMAINS[name]
    x = SortedList(vals[i] for i in a)
    xk = SortedKeyList((vals[i] for i in a), key=lambda v: vals[0] == v)
    for r in range(4):
        for b in combinations_with_replacement(range(len(vals)), r):
            o = [vals[i] for i in b]
            y = SortedList(o)
            yk = SortedKeyList(o, key=lambda v: vals[0] == v)
            for p, q in ((x, y), (x, o), (o, x), (x, tuple(o)), (xk, yk), (xk, o),
                         (x, yk), (xk, y)):
                lp, lq = list(p), list(q)
                for sym, op in CMPS:
                    st.add('transitions')
                    got = op(p, q)
                    if got is not op(lp, lq):
                        raise Violation('%s %s %s of %r, %r' % (
                            type(p).__name__, sym, type(q).__name__, lp, lq),
                            op(lp, lq), got)
    st.kind(name)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    cov.bfs('operators', ListSys('list', 4, 20 if deep else 17, battery=(q_ops,)))
    cov.bfs('operators-ties', ListSys('list', 4, 12 if deep else 10, distinct=False,
                                      kmax=3, battery=(q_ops,)))
    cov.bfs('operators-key', ListSys('key', 4, 18 if deep else 15, battery=(q_ops,)))
    cov.bfs('operators-key-ties', ListSys('key', 4, 8 if deep else 6, distinct=False,
                                          kmax=2, emax=2, battery=(q_ops,)))
    cov.bfs('compare', ListSys('list', 4, 20 if deep else 17, battery=(q_cmp,)))
    cov.bfs('compare-ties', ListSys('list', 4, 12 if deep else 10, distinct=False, kmax=3,
                                    battery=(q_cmp,)))
    cov.bfs('compare-key', ListSys('key', 4, 17 if deep else 13, battery=(q_cmp,)))
    cov.cases('foreign', 'every list of up to 5 small numbers against ranges, strings, '
              'bytes, arrays and other sequences equal to it or nearly', [
                  (a, k) for n in range(7 if deep else 6)
                  for a in combinations_with_replacement(range(5), n)
                  for k in (False, True)], foreign_case)
    vals = range(4 if deep else 3)
    ms = [list(t) for r in range(5) for t in product(vals, repeat=r)
          if list(t) == sorted(t)]
    cov.cases('pairs', 'all pairs of multisets of up to 4 values', [
        (a, b) for a in ms for b in ms], pair_case)
    cov.cases('any-right', 'every left multiset against every (unsorted) sequence of up '
              'to 3 values', [(a, list(t)) for a in ms if len(a) < 4
                              for r in range(4) for t in product(vals, repeat=r)],
              pair_case)
    cov.cases('non-sequences', 'NotImplemented for operands that are not sequences',
              [(a, i, kd) for a in ([], [1], [1, 2, 3]) for i in range(len(NONSEQ))
               for kd in (False, True)], nonseq_case)
    cov.cases('larger', 'larger operands, default load factor, independence',
              [(n, k, kd, load) for n, load in ((0, 4), (1, 4), (9, 4), (33, 4), (120, 5),
                                                (1100, None), (2100, None))
               for k in (0, 1, 5, 30, 260, 1100) for kd in (False, True)], mutate_case)
    FOUR = (SortedList, PlainSub, PlainSub2)
    KEYED = (SortedKeyList, KeySub, KeySub2)
    cov.cases('classes', 'operands of a base class, its subclasses and siblings, empty '
              'or not, on both sides', [
                  (ca, cb, na, nb) for ca in FOUR + KEYED for cb in FOUR + KEYED
                  for na in (0, 1, 2, 5, 13, 60) for nb in (0, 1, 2, 5, 13, 60)],
              class_case)
    cov.cases('domains', 'all pairs of lists of up to %d and 3 values of many kinds' % (
        4 if deep else 3), [(name, a) for name in COMPARED for r in range(5 if deep else 4)
                           for a in combinations_with_replacement(
                               range(len(DOMAINS[name])), r)], order_case)
    cov.cases('layouts', 'lists of up to %d values differing at one position, same or '
              'other segments' % (131 if deep else 68), [
                  (k, n, la, lb) for k in ('list', 'key')
                  for n in (5, 9, 10, 13, 20, 33, 68) + ((131,) if deep else ())
                  for la in ('bulk', 'spread', 'thin')
                  for lb in ('bulk', 'spread', 'thin') if n % 37], layout_case)
    return cov.result(['the relative order of equal elements of "other + sl" is not '
                       'promised and not checked'])
