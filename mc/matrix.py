"""Operand matrices: every binary (and three-operand) operation of lists, sets and dicts
for every form of operand, pair of sizes, way the two overlap, and load factor; the
result, the operands afterwards, and that none of the three shares anything with another."""
from collections import ChainMap, Counter, OrderedDict, UserDict, deque
import operator

from .core import Quiet, SortedDict, SortedKeyList, SortedList, SortedSet, Violation
from .keys import LoadList, SubDict, SubList, SubSet
from .lists import outcome


def neg(v):
    return -v


def mod(v):
    return (v % 4, v)


KEYS = {'none': None, 'neg': neg, 'mod': mod}
RELS = ('above', 'below', 'between', 'inside', 'around', 'half', 'equal', 'low half')


def values(n, m, rel):
    """n distinct values of one and m of the other operand."""
    A = [4 * i for i in range(n)]
    top = 4 * n
    if rel == 'above':
        B = [top + 4 * i for i in range(m)]
    elif rel == 'below':
        B = [-4 * (i + 1) for i in range(m)]
    elif rel == 'between':
        step = 5 if (n + 3) % 5 else 7
        B = [4 * (i * step % (n + 3)) + 1 + (i // (n + 3)) / 2048 for i in range(m)]
    elif rel == 'inside':
        B = [4 * (i * 5 % max(n, 1)) for i in range(min(m, n))] if n % 5 else A[:m]
    elif rel == 'around':
        B = A[:m] + [top + i for i in range((m - n + 1) // 2)] + [
            -i - 1 for i in range((m - n) // 2)]
    elif rel == 'half':
        B = [4 * (n // 2 + i) for i in range(m)]
    elif rel == 'equal':
        B = list(A[:m])
    else:
        B = [4 * (n // 2 - i) for i in range(m)]
    return A, B


def with_load(c, load):
    if load:
        c._reset(load)
    return c


def set_forms(B, load):
    """name -> operand maker."""
    return {
        'set': lambda: set(B), 'frozenset': lambda: frozenset(B),
        'list': lambda: list(B), 'tuple': lambda: tuple(B), 'gen': lambda: (v for v in B),
        'twice': lambda: B + B[::-1], 'dict': lambda: dict.fromkeys(B),
        'keys': lambda: dict.fromkeys(B).keys(),
        'SortedSet': lambda: with_load(SortedSet(B), load),
        'SortedSet/neg': lambda: with_load(SortedSet(B, key=neg), load),
        'SubSet': lambda: SubSet(B), 'SortedList': lambda: with_load(SortedList(B), load),
        'SortedKeyList': lambda: SortedKeyList(B, key=neg),
        'SortedDict': lambda: SortedDict.fromkeys(B),
        'SortedDict.keys': lambda: SortedDict.fromkeys(B).keys(),
    }


SETONLY = ('set', 'frozenset', 'keys', 'SortedSet', 'SortedSet/neg', 'SubSet',
           'SortedDict.keys')
METHODS = ('union', 'intersection', 'difference', 'symmetric_difference')
INPLACE = ('update', 'intersection_update', 'difference_update',
           'symmetric_difference_update')
OPS = (('|', operator.or_), ('&', operator.and_), ('-', operator.sub), ('^', operator.xor))
IOPS = (('|=', operator.ior), ('&=', operator.iand), ('-=', operator.isub),
        ('^=', operator.ixor))


def listing(c):
    if isinstance(c, dict):
        return list(c.items())
    try:
        return sorted(c) if isinstance(c, (set, frozenset)) else list(c)
    except TypeError:
        return c


def shift(c):
    """Change a container thoroughly (no-op on the immutable and the one-shot)."""
    if isinstance(c, dict):
        for k in list(c)[:2]:
            c[k] = 'changed'
        c[-1000.25] = 1
        c[1.125] = 1
        for k in list(c)[1:3]:
            del c[k]
    elif hasattr(c, 'discard') and hasattr(c, 'add'):
        c.add(-1000.25)
        c.add(1.125)
        for v in list(c)[1:4]:
            c.discard(v)
    elif isinstance(c, list):
        c.append(-1000.25)
        del c[:1]
        c.reverse()


def order(vals, key):
    return sorted(sorted(vals), key=key)


def expect(text, r, e, key, cls=None):
    got = listing(r)
    if got != e or len(r) != len(e):
        raise Violation(text, e, got)
    if cls and type(r) is not cls:
        raise Violation('%s: class' % text, cls, type(r))
    if cls and r.key is not key:
        raise Violation('%s: key function' % text, key, r.key)
    if hasattr(r, '_check'):
        with Quiet():
            o = outcome(r._check)
        if o[0] == 'err':
            raise Violation('%s, then _check()' % text, 'passes', o)


def find_all(text, r, e):
    """The result answers for every value."""
    n = len(e)
    seq = r.keys() if isinstance(r, dict) else r
    for i, v in enumerate(e):
        if v not in r or seq[i] != v or seq[i - n] != v or r.index(v) != i:
            raise Violation('%s: value %r' % (text, v), (True, v, v, i),
                            (v in r, seq[i], seq[i - n], outcome(r.index, v)))


def set_case(case, st, part):
    """part: 'new' (methods and operators that return a set), 'inplace', 'apart'."""
    n, m, rel, kn, load = case
    key = KEYS[kn]
    A, B = values(n, m, rel)
    a, b = set(A), set(B)
    forms = set_forms(B, load)
    names = list(forms)
    C = A[1::2] + [999.5]
    jobs = []
    for f in names:
        for i in range(4):
            jobs.append(('new', METHODS[i], (f,), i))
            jobs.append(('in', INPLACE[i], (f,), i))
            if f in SETONLY:
                jobs.append(('new', OPS[i][0], (f,), i))
                if f in ('set', 'frozenset'):
                    jobs.append(('rnew', OPS[i][0], (f,), i))
                jobs.append(('in', IOPS[i][0], (f,), i))
            if i < 3:
                # two more operands: of the same form, and of others
                jobs.append(('new', METHODS[i], (f, 'more:' + f), i))
                jobs.append(('in', INPLACE[i], (f, 'more:' + f), i))
                g = names[(names.index(f) * 7 + 3) % len(names)]
                jobs.append(('new', METHODS[i], (f, 'more:' + g, 'self'), i))
                jobs.append(('in', INPLACE[i], (g, 'self', 'more:' + f), i))
    for way, nm, fs, i in jobs:
        if (part == 'inplace') != (way == 'in') and part != 'apart':
            continue
        x = with_load(SortedSet(A, key=key), load)
        if n and (n + m) % 2:
            x[n // 2]
        base = order(a, key)
        args, plain = [], []
        for f in fs:
            if f == 'self':
                args.append(x)
                plain.append(a)
            elif f.startswith('more:'):
                args.append(set_forms(C, load)[f[5:]]())
                plain.append(set(C))
            else:
                args.append(forms[f]())
                plain.append(b)
        before = [listing(o) for o in args if not hasattr(o, '__next__')]
        if nm in METHODS or nm in INPLACE:
            fn = getattr(x, nm)
            e = set(a)
            if i == 0:
                e = e.union(*plain)
            elif i == 1:
                e = e.intersection(*plain)
            elif i == 2:
                e = e.difference(*plain)
            else:
                e = e.symmetric_difference(*plain)
            r = fn(*args)
        else:
            op = OPS[i][1]
            if way == 'rnew':
                e = op(b, a)
                r = op(args[0], x)
            else:
                e = op(a, b)
                r = (dict(IOPS) if way == 'in' else dict(OPS))[nm](x, args[0])
        st.add('transitions')
        text = '%r: %s(%s) %s' % (case, nm, ', '.join(fs), way)
        if way == 'in':
            if nm in dict(IOPS) and r is not x:
                raise Violation('%s returns another object' % text)
            r = x
        elif r is x:
            raise Violation('%s returns the set itself' % text)
        e = order(e, key)
        expect(text, r, e, key, SortedSet)
        if len(e) < 14 or i == (n + m) % 4:
            find_all(text, r, e)
        if way != 'in':
            expect(text + ': the set', x, base, key, SortedSet)
        after = [listing(o) for o in args if not hasattr(o, '__next__') and not (
            o is x and way == 'in')]
        if way == 'in':
            before = [q for q, f in zip(before, [o for o in fs if o != 'gen' and
                                                 o != 'more:gen']) if f != 'self']
        if after != before:
            raise Violation('%s changed its argument' % text, before, after)
        if part != 'apart':
            continue
        apart(text, r, [x] * (way != 'in') + [o for o in args if o is not x])
    st.kind(rel)


def apart(text, r, others):
    """Changing any one of them leaves the others as they are."""
    parties = [r] + [o for o in others if not hasattr(o, '__next__')]
    for i, p in enumerate(parties):
        was = [listing(q) for q in parties]
        shift(p)
        for j, q in enumerate(parties):
            if j != i and listing(q) != was[j]:
                raise Violation('%s: changing %s shows in %s' % (
                    text, 'the result' if not i else 'operand %d' % i,
                    'the result' if not j else 'operand %d' % j), was[j], listing(q))
        for q in parties:
            if hasattr(q, '_check'):
                with Quiet():
                    o = outcome(q._check)
                if o[0] == 'err':
                    raise Violation('%s: then _check() of %r' % (text, type(q)),
                                    'passes', o)


# dicts ------------------------------------------------------------------------

class AMap(UserDict):
    pass


def dict_forms(P, load):
    d = dict(P)
    return {
        'dict': lambda: dict(P), 'pairs': lambda: list(P), 'gen': lambda: (p for p in P),
        'lists': lambda: [list(p) for p in P], 'ordered': lambda: OrderedDict(P),
        'usermap': lambda: AMap(d), 'counter': lambda: Counter(d),
        'chain': lambda: ChainMap(dict(P[::2]), dict(P)), 'items': lambda: d.items(),
        'SortedDict': lambda: with_load(SortedDict(P), load),
        'SortedDict/neg': lambda: with_load(SortedDict(neg, P), load),
        'SubDict': lambda: SubDict(P), 'SortedDict.items': lambda: SortedDict(P).items(),
        'twice': lambda: [(k, 'early') for k, v in P] + list(P),
    }


MAPS = ('dict', 'ordered', 'usermap', 'counter', 'chain', 'SortedDict', 'SortedDict/neg',
        'SubDict')


def dict_case(case, st, part):
    n, m, rel, kn, load = case
    key = KEYS[kn]
    A, B = values(n, m, rel)
    a = {v: ('a', v) for v in A[::2] + A[1::2]}
    P = [(v, None if i % 3 == 1 else ('b', i)) for i, v in enumerate(B[1::2] + B[::2])]
    b = dict(P)
    forms = dict_forms(P, load)
    for f, mk in forms.items():
        ways = ['update', '|=', 'setitem', 'setdefault', 'new', 'update kw', 'reused']
        if f in MAPS:
            ways += ['|']
            if f == 'dict':
                # only a plain dict leaves | to the right operand
                ways += ['r|']
        for way in ways:
            x = with_load(SortedDict(key, a), load)
            if n and (n + m) % 2:
                x.keys()[n // 2]
            o = mk()
            before = listing(o) if not hasattr(o, '__next__') else None
            e = {**a, **b}
            r = x
            text = '%r: %s with %s' % (case, way, f)
            st.add('transitions')
            if way == 'update':
                x.update(o)
            elif way == 'update kw':
                if a or b:
                    x = SortedDict({str(k): v for k, v in a.items()})
                    q = {str(k): v for k, v in b.items()}
                    x.update(**q)
                    if dict(x) != {**{str(k): v for k, v in a.items()}, **q} or list(
                            x) != sorted(x):
                        raise Violation(text, None, x)
                continue
            elif way == '|=':
                x |= o
                if x is not r:
                    raise Violation('%s returns another object' % text)
            elif way == 'setitem':
                for k, v in (o.items() if hasattr(o, 'items') else o):
                    x[k] = v
            elif way == 'setdefault':
                for k, v in (o.items() if hasattr(o, 'items') else o):
                    x.setdefault(k, v)
                e = {**b, **a}
                if f == 'twice':
                    e = {**{k: 'early' for k in b}, **a}
            elif way == 'new':
                r = with_load(SortedDict(key, o), load)
                e = b
            elif way == 'reused':
                x.clear()
                x.update(o)
                e = b
            elif way == '|':
                r = x | o
            else:
                r = o | x
                e = {**b, **a}
            e = [(k, e[k]) for k in order(e, key)]
            expect(text, r, e, key, SortedDict)
            if list(r.values()) != [v for k, v in e] or list(r.items()) != e:
                raise Violation(text + ': values()', e, list(r.items()))
            if len(e) < 14 or len(f) % 4 == (n + m) % 4:
                find_all(text, r, [k for k, v in e])
            if before is not None and listing(o) != before:
                raise Violation('%s changed its argument' % text, before, listing(o))
            if r is not x:
                expect(text + ': the dict', x, [(k, a[k]) for k in order(a, key)], key)
            if part == 'apart' and f not in ('items', 'SortedDict.items', 'usermap',
                                             'chain'):
                apart(text, r, ([x] if r is not x else []) + [o])
    st.kind(rel)


# lists ------------------------------------------------------------------------

def list_forms(B, load):
    return {
        'list': lambda: list(B), 'tuple': lambda: tuple(B), 'gen': lambda: (v for v in B),
        'set': lambda: set(B), 'deque': lambda: deque(B),
        'SortedList': lambda: with_load(SortedList(B), load),
        'SortedList 9': lambda: with_load(SortedList(B), 9),
        'SortedList grown': lambda: grown(SortedList(), B, load),
        'SubList': lambda: SubList(B), 'LoadList': lambda: LoadList(B),
        'SortedKeyList/neg': lambda: with_load(SortedKeyList(B, key=neg), load),
        'SortedKeyList/mod': lambda: with_load(SortedKeyList(B, key=mod), load),
        'SortedSet': lambda: with_load(SortedSet(B), load),
        'SortedSet/neg': lambda: SortedSet(B, key=neg),
        'SortedDict.keys': lambda: SortedDict.fromkeys(B).keys(),
        'SortedDict': lambda: SortedDict.fromkeys(B), 'range': lambda: range(len(B)),
    }


def grown(c, B, load):
    with_load(c, load)
    for v in B[::2] + B[1::2]:
        c.add(v)
    return c


def list_case(case, st, part):
    n, m, rel, kn, load = case
    key = KEYS[kn]
    A, B = values(n, m, rel)
    for f, mk in list_forms(B, load).items():
        for way in ('new', 'update', '+=', 'reused', '+', 'r+', 'empty update',
                    'self update'):
            A_ = [] if way in ('empty update', 'new') else A
            if key:
                x = SortedKeyList(A_, key=key)
            else:
                x = SortedList(A_)
            with_load(x, load)
            if A_ and (n + m) % 2:
                x[n // 2]
            o = mk()
            bl = list(range(len(B))) if f == 'range' else B
            before = listing(o) if not hasattr(o, '__next__') else None
            r = x
            text = '%r: %s with %s' % (case, way, f)
            e = A_ + bl
            if way == 'new':
                r = SortedKeyList(o, key=key) if key else SortedList(o)
                with_load(r, load)
                x = r
            elif way in ('update', 'empty update'):
                x.update(o)
            elif way == 'self update':
                if f != 'SortedList':
                    continue
                x.update(x)
                x += o
                e = A_ + A_ + bl
            elif way == '+=':
                x += o
                if x is not r:
                    raise Violation('%s returns another object' % text)
            elif way == 'reused':
                x.clear()
                x.update(o)
                e = bl
            elif way == '+':
                if isinstance(o, SortedList) and type(o) is not type(x):
                    # the more derived of the two classes may answer
                    continue
                r = x + o
            else:
                if f not in ('list', 'tuple', 'range', 'set'):
                    continue
                r = o + x if f != 'range' else x.__radd__(o)
            st.add('transitions')
            e = order(e, key)
            expect(text, r, e, key, SortedKeyList if key else SortedList)
            for i, v in enumerate(e):
                if r[i] != v or r[i - len(e)] != v or v not in r or e[r.index(v)] != v:
                    raise Violation('%s: value %r' % (text, v), (v, v), (r[i], r.index(v)))
            if before is not None and listing(o) != before:
                raise Violation('%s changed its argument' % text, before, listing(o))
            if r is not x:
                expect(text + ': the list', x, order(A_, key), key)
            if part == 'apart':
                apart(text, r, ([x] if r is not x else []) + [o])
    st.kind(rel)


def matrix_cases(deep, keys=('none', 'neg', 'mod'), loads=(4, None)):
    ns = (0, 1, 2, 4, 5, 8, 9, 13, 20) + ((17, 33, 68) if deep else ())
    ms = (0, 1, 2, 3, 4, 8, 9, 20, 40) + ((16, 68, 130) if deep else ())
    return [(n, m, rel, kn, load) for n in ns for m in ms for rel in RELS for kn in keys
            for load in loads if kn != 'mod' or load]


def matrix_large():
    return [(n, m, rel, kn, None) for n, m in ((1000, 3), (3, 1000), (1001, 260),
                                               (240, 1000), (1000, 1000), (2001, 1999))
            for rel in RELS for kn in ('none', 'neg')]
