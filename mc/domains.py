"""Every short history over value domains other than numbers: falsy and empty values,
None, strings, tuples, unhashable values, mixed numeric types, user-defined classes that
define no more than the documented comparisons, and values whose truth value or repr
raises.  The library may only compare (and, for sets and dicts, hash) what it stores."""
import bisect
from datetime import date, timedelta
from decimal import Decimal
from fractions import Fraction
from functools import total_ordering

from .core import SortedDict, SortedKeyList, SortedList, SortedSet, Violation
from .lists import bad, match_err, outcome, same


@total_ordering
class Opaque:
    """Orderable and nothing else: no truth value, repr, hash, copy or attribute."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        if not isinstance(o, Opaque):
            return NotImplemented
        return self.k < o.k

    def __eq__(self, o):
        if not isinstance(o, Opaque):
            return NotImplemented
        return self.k == o.k

    __hash__ = None

    def __bool__(self):
        raise AssertionError('the truth value of a stored value was asked for')

    def __len__(self):
        raise AssertionError('the length of a stored value was asked for')

    def __iter__(self):
        raise AssertionError('a stored value was iterated over')

    def __call__(self, *a):
        raise AssertionError('a stored value was called')

    def __reduce_ex__(self, p):
        raise AssertionError('a stored value was copied')


@total_ordering
class Ci:
    """Case-insensitive string: equal values that differ."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __lt__(self, o):
        return self.s.lower() < o.s.lower()

    def __eq__(self, o):
        return isinstance(o, Ci) and self.s.lower() == o.s.lower()

    def __hash__(self):
        return hash(self.s.lower())

    def __repr__(self):
        return 'Ci(%r)' % self.s

    def __reduce__(self):
        return (Ci, (self.s,))


class OInt(int):
    pass


inf = float('inf')
# in order; equal neighbours are ties
DOMAINS = {
    'str': ['', ' ', '0', 'None', 'a', 'ab', 'b'],
    'bytes': [b'', b'\x00', b'a', b'ab'],
    'tuple': [(), (0,), (0, ''), (0, 'a'), (1,)],
    'int': [-10 ** 30, -2, -1, 0, 1, 2, 10 ** 30],
    'mixed': [-inf, -0.5, False, 0, 0.0, Fraction(1, 3), True, 1, Decimal(1), 2, inf],
    'bool': [False, True],
    'list': [[], [0], [0, 0], [1], [1, []]],
    'opaque': [Opaque(0), Opaque(1), Opaque(1), Opaque(2), Opaque(3)],
    'ci': [Ci('A'), Ci('a'), Ci('b'), Ci('C'), Ci('c')],
    'date': [date(1, 1, 1), date(2000, 2, 29), date(2001, 1, 1)],
    'delta': [timedelta(-1), timedelta(0), timedelta(1)],
    'intsub': [OInt(0), OInt(1), OInt(1), OInt(7)],
    'frac': [Fraction(-1, 2), Fraction(0), Fraction(1, 2)],
}
UNHASHABLE = ('list', 'opaque')


def first(v):
    return v[0]


# values (any), with the key that orders them
KEYED = {
    'none': ([None, '', 0, (), False, 'x'],
             lambda v: 0 if v is None else len(v) + 1 if hasattr(v, '__len__') else 5),
    'dicts': ([{}, {'a': 1}, {'b': 1}, {'a': 1, 'b': 2}], len),
    'types': ([int, str, float, bytes, type(None)], lambda t: t.__name__),
    'pairs': ([(2, None), (1, {}), (1, []), (0, 0), (0, None)], first),
    'complex': ([1j, 0j, 1 + 0j, 2 - 1j], abs),
    'sets': ([set(), {1}, {2}, frozenset({1}), {1, 2}], len),
    'falsykey': (['', 'a', 'bb'], lambda s: '' if not s else s[1:]),
    'funcs': ([len, abs, first, match_err], lambda f: f.__name__),
}


def ident(v):
    return v


class Model:
    """A list kept sorted by key, stable."""

    def __init__(self, key):
        self.key = key
        self.m = []

    def add(self, v):
        ks = [self.key(e) for e in self.m]
        i = 0
        while i < len(ks) and not self.key(v) < ks[i]:
            i += 1
        self.m.insert(i, v)


def vals_of(name):
    if name in DOMAINS:
        return DOMAINS[name], ident
    return KEYED[name]


def shows(x, m, vals, key, keyed):
    n = len(m)
    if len(x) != n or not same(list(x), m) or not same(list(reversed(x)), m[::-1]):
        raise Violation('contents', [id(v) for v in m], [id(v) for v in x])
    for i in range(-n, n):
        if x[i] is not m[i]:
            raise Violation('x[%d]' % i, n, i)
    keys = [key(v) for v in m]
    for j, v in enumerate(vals):
        k = key(v)
        bl = sum(1 for e in keys if e < k)
        br = sum(1 for e in keys if not k < e)
        cnt = sum(1 for e in m if e == v)
        loc = [i for i, e in enumerate(m) if e == v]
        jobs = [('__contains__', v, cnt > 0), ('count', v, cnt), ('bisect_left', v, bl),
                ('bisect_right', v, br), ('bisect', v, br)]
        if keyed:
            jobs += [('bisect_key_left', k, bl), ('bisect_key_right', k, br)]
        for name, a, e in jobs:
            o = outcome(getattr(x, name), a)
            if o[0] != 'ok' or o[1] is not e and (
                    isinstance(e, bool) or o[1] != e):
                raise Violation('%s(value %d)' % (name, j), e, repr(o))
        o = outcome(x.index, v)
        if loc and o != ('ok', loc[0]) or not loc and not match_err(o, ValueError):
            raise Violation('index(value %d)' % j, loc[:1], repr(o))
        if v is not None:
            for a, args in ((m[bl:], (v,)), (m[:br], (None, v)), (m[bl:br], (v, v)),
                            (m[br:], (v, None, (False, True))),
                            (m[:bl], (None, v, (True, False)))):
                if not same(list(x.irange(*args)), a):
                    raise Violation('irange around value %d' % j, len(a), None)
                if not same(list(x.irange(*(args + (None, (True, True))[len(args) - 1:]),
                                          reverse=True)), a[::-1]):
                    raise Violation('irange reverse around value %d' % j, len(a), None)


def list_case(case, st):
    """(domain, load-crossing seed size, first op): all histories of depth ops."""
    name, seed, firstop, depth = case
    vals, key = vals_of(name)
    keyed = name in KEYED
    nv = len(vals)
    ops = ([('add', i) for i in range(nv)] + [('remove', i) for i in range(nv)] +
           [('discard', i) for i in range(nv)] + [('pop', 0), ('pop', -1)] +
           [('update', (0, nv - 1)), ('update', (nv // 2,)), ('iadd', (nv - 1, 0)),
            ('copy', 0), ('radd', 0), ('mul', 0), ('slice', 0)])

    def build(hist):
        x = SortedKeyList(key=key) if keyed else SortedList()
        x._reset(4)
        md = Model(key)
        start = [vals[(i * 5 + 1) % nv] for i in range(seed)]
        x.update(start)
        for v in start:
            md.add(v)
        for op in hist:
            x = step(x, md, op)
        return x, md

    def step(x, md, op):
        nm, a = op
        m = md.m
        if nm == 'add':
            exp = ('ok', None)
            md.add(vals[a])
            got = outcome(x.add, vals[a])
        elif nm in ('remove', 'discard'):
            v = vals[a]
            loc = [i for i, e in enumerate(m) if e == v]
            got = outcome(getattr(x, nm), v)
            exp = ('ok', None)
            if loc:
                del m[loc[0]]
            elif nm == 'remove':
                exp = None
                if not match_err(got, ValueError):
                    raise Violation('%s, value %d absent' % (nm, a), 'ValueError',
                                    repr(got))
        elif nm == 'pop':
            got = outcome(x.pop, a)
            if m:
                e = m.pop(a)
                if got[0] != 'ok' or got[1] is not e:
                    raise Violation('pop(%d)' % a, None, None)
            elif not match_err(got, IndexError):
                raise Violation('pop(%d) on empty' % a, 'IndexError', None)
            exp = None
        elif nm in ('update', 'iadd'):
            vs = [vals[i] for i in a]
            for v in vs:
                md.add(v)
            if nm == 'iadd':
                x += vs
                exp = None
            else:
                got, exp = outcome(x.update, iter(vs)), ('ok', None)
        elif nm == 'copy':
            x, exp = x.copy(), None
            x._reset(4)
        elif nm == 'radd':
            x, exp = x + [vals[0]], None
            md.add(vals[0])
            x._reset(4)
        elif nm == 'mul':
            x, exp = x * 2, None
            for v in list(m):
                md.add(v)
            x._reset(4)
        elif nm == 'slice':
            del x[1:3]
            del m[1:3]
            exp = None
        if exp is not None and got != exp:
            raise Violation('%s(%r)' % op, exp, repr(got))
        return x

    def rec(hist):
        try:
            x, md = build(hist)
            shows(x, md.m, vals, key, keyed)
        except Violation as v:
            v.info['pre'] = ['domain %s' % name, 'seed %d' % seed, 'history %r' % (hist,)]
            raise
        except Exception as e:
            raise Violation('unexpected exception', None, repr(e), trace=[
                'domain %s' % name, 'seed %d' % seed, 'history %r' % (hist,)])
        st.add('transitions')
        st.add('states')
        if len(hist) < depth:
            for op in ops:
                rec(hist + [op])
    rec([ops[firstop]] if firstop < len(ops) else [])
    st.kind(name)


def list_cases(keyed, depth):
    out = []
    for name in (KEYED if keyed else DOMAINS):
        nv = len(vals_of(name)[0])
        for seed in (0, 9, 17):
            out += [(name, seed, f, depth) for f in range(3 * nv + 9)]
    return out


def assoc_case(case, st):
    """SortedSet and SortedDict over the hashable domains."""
    what, name, seed, firstop, depth = case
    vals, key = vals_of(name)
    keyed = name in KEYED
    if keyed:
        vals = [v for v in vals if outcome(hash, v)[0] == 'ok']
    nv = len(vals)
    ops = [(nm, i) for nm in ('add', 'remove', 'discard', 'get') for i in range(nv)] + [
        ('pop', 0), ('pop', -1), ('bulk', (0, nv - 1)), ('bulk', (nv // 2,)),
        ('minus', (0, nv - 1)), ('copy', 0)]
    junk = [None, False, 0, '', vals[0]]

    def run(hist):
        if what == 'set':
            x = SortedSet(key=key if keyed else None)
        else:
            x = SortedDict(key) if keyed else SortedDict()
        x._reset(4)
        m = {}
        for i in range(seed):
            v = vals[(i * 5 + 1) % nv]
            w = junk[i % 5]
            if what == 'set':
                x.add(v)
                m.setdefault(v)
            else:
                x[v] = w
                m[v] = w
        for t, (nm, a) in enumerate(hist):
            w = junk[t % 5]
            exp = got = ('ok', None)
            if nm == 'add':
                if what == 'set':
                    got = outcome(x.add, vals[a])
                    m.setdefault(vals[a])
                else:
                    got = outcome(x.__setitem__, vals[a], w)
                    m[vals[a]] = w
            elif nm in ('remove', 'discard'):
                v = vals[a]
                if what == 'set':
                    got = outcome(getattr(x, nm), v)
                elif nm == 'remove':
                    got = outcome(x.__delitem__, v)
                else:
                    got, exp = outcome(x.pop, v, w), ('ok', m.get(v, w))
                if v not in m and nm == 'remove':
                    if not match_err(got, KeyError):
                        bad('%s value %d' % (nm, a), ('err', KeyError), got)
                    got = exp
                m.pop(v, None)
            elif nm == 'get':
                if what == 'dict':
                    v = vals[a]
                    got, exp = outcome(x.setdefault, v, w), ('ok', m.setdefault(v, w))
            elif nm == 'pop':
                if not m:
                    got = outcome(x.pop if what == 'set' else x.popitem, a)
                    if not match_err(got, IndexError if what == 'set' else KeyError):
                        raise Violation('pop from empty', None, repr(got))
                    got = exp
                else:
                    order = list(x)
                    got = outcome(x.pop if what == 'set' else x.popitem, a)
                    k = order[a]
                    exp = ('ok', k if what == 'set' else (k, m[k]))
                    del m[k]
            elif nm == 'bulk':
                vs = [vals[i] for i in a]
                if what == 'set':
                    x |= set(vs)
                    for v in vs:
                        m.setdefault(v)
                else:
                    x.update([(v, w) for v in vs])
                    m.update([(v, w) for v in vs])
            elif nm == 'minus':
                if what == 'set':
                    x -= {vals[i] for i in a}
                    for i in a:
                        m.pop(vals[i], None)
            elif nm == 'copy':
                x = x.copy()
                x._reset(4)
            if got[0] != exp[0] or (got[1] is not exp[1] and not (
                    type(got[1]) is tuple and got[1] == exp[1])):
                raise Violation('%s %r' % (nm, a), repr(exp), repr(got))
        return x, m

    def show(x, m):
        order = list(x)
        if len(x) != len(m) or len(order) != len(m) or not all(v in m for v in order):
            raise Violation('members', list(m), order)
        ks = [key(v) for v in order]
        if any(b < a for a, b in zip(ks, ks[1:])):
            raise Violation('order', sorted(m, key=key), order)
        if len(set(map(id, order))) != len(order):
            raise Violation('a member twice', list(m), order)
        for j, v in enumerate(vals):
            if (v in x) is not (v in m):
                raise Violation('value %d in x' % j, v in m, v in x)
            if what == 'dict' and (x.get(v, ident) is not m.get(v, ident) or
                                   (v in x.keys()) is not (v in m)):
                raise Violation('get(value %d)' % j, m.get(v), x.get(v))
            if what == 'set' and x.count(v) != (v in m):
                raise Violation('count(value %d)' % j, v in m, x.count(v))
            k = key(v)
            e = (sum(1 for q in ks if q < k), sum(1 for q in ks if not k < q))
            if (x.bisect_left(v), x.bisect_right(v)) != e:
                raise Violation('bisect(value %d)' % j, e,
                                (x.bisect_left(v), x.bisect_right(v)))
            o = outcome(x.index, v)
            if v in m and o != ('ok', order.index(v)) or (
                    v not in m and not match_err(o, ValueError)):
                raise Violation('index(value %d)' % j, None, repr(o))
        if what == 'dict':
            if [v is m[k] for k, v in zip(x, x.values())] != [True] * len(m) or \
                    list(x.items()) != [(k, m[k]) for k in x]:
                raise Violation('items', m, list(x.items()))
            if x != m or dict(x) != m:
                raise Violation('==', m, x)
            for i in range(-len(m), len(m)):
                p = x.peekitem(i)
                if p[0] is not order[i] or p[1] is not m[order[i]]:
                    raise Violation('peekitem(%d)' % i, order[i], p)
        elif x != set(m) or x & set(m) != set(m) or list(x | set()) != order:
            if keyed and x == set(m) and set(x | set()) == set(m):
                return
            raise Violation('set algebra', m, x)

    def rec(hist):
        try:
            show(*run(hist))
        except Violation as v:
            v.info['pre'] = ['domain %s' % name, 'seed %d' % seed, 'history %r' % (hist,)]
            raise
        except Exception as e:
            raise Violation('unexpected exception', None, repr(e), trace=[
                what, 'domain %s' % name, 'seed %d' % seed, 'history %r' % (hist,)])
        st.add('transitions')
        st.add('states')
        if len(hist) < depth:
            for op in ops:
                rec(hist + [op])
    rec([ops[firstop]] if firstop < len(ops) else [])
    st.kind(name)


def assoc_cases(what, depth):
    out = []
    for name in list(DOMAINS) + list(KEYED):
        if name in UNHASHABLE:
            continue
        vals, key = vals_of(name)
        nv = sum(1 for v in vals if outcome(hash, v)[0] == 'ok')
        if nv < 2:
            continue
        for seed in (0, 4, 30):
            out += [(what, name, seed, f, depth) for f in range(4 * nv + 6)]
    return out
