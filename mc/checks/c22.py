"""C22 Key functions are honoured and carried over everywhere."""
import copy
import functools
import itertools
import operator
import pickle

from ..core import (Cov, SortedDict, SortedKeyList, SortedList, SortedSet, Violation,
                    clone, digest)
from ..dicts import AMapping, Bundle, DictSys, DKIND_NEG, check_dict, q_mapping
from ..keys import ASC, NEG, SubDict, SubKeyList, SubSet
from ..lists import Kind, ListSys, check_contents, outcome, q_range, q_search
from ..sets import ASet, SBundle, SetSys, check_set, q_setside


def key_is(r, key, text, cls):
    if type(r) is not cls:
        raise Violation('type(%s)' % text, cls.__name__, type(r).__name__)
    if r.key is not key:
        raise Violation('(%s).key' % text, key, r.key)


def has_key_methods(r, text):
    for nm in ('bisect_key', 'bisect_key_left', 'bisect_key_right', 'irange_key'):
        if not callable(getattr(r, nm, None)):
            raise Violation('(%s).%s' % (text, nm), 'a method', 'missing')


class NegKind(Kind):
    """Unorderable (complex) values under a picklable key."""

    def __init__(self):
        self.name = 'negpickle'
        self.keyed = True
        self.key = NEG


class LSys(ListSys):
    def __init__(self, *a, cls=SortedKeyList, **k):
        super().__init__(*a, **k)
        self.kind = NegKind()
        self.cls = cls

    def build(self, n):
        x = self.cls(key=NEG)
        x._reset(self.load)
        return x, []

    def derive(self, m):
        k = self.kind

        def srt(l):
            return sorted(l, key=NEG)
        tie = [k.elem(k.code(m[0])[0], 5)] if m else []
        more = tie + [k.elem(3.25), k.elem(-9.0, 1), k.elem(-9.0, 0)]
        cls = self.cls
        same = (lambda l: [[e] for e in l])
        yield 'x.copy()', lambda y: y.copy(), m, True
        yield 'copy.copy(x)', copy.copy, m, True
        yield 'copy.deepcopy(x)', copy.deepcopy, m, False
        for p in range(pickle.HIGHEST_PROTOCOL + 1):
            yield 'pickle %d' % p, lambda y, p=p: pickle.loads(
                pickle.dumps(y, p)), m, False
        yield 'x + []', lambda y: y + [], m, True
        yield 'x + more', lambda y: y + more, srt(m + more), True
        yield 'x + tuple', lambda y: y + tuple(more), srt(m + more), True
        yield 'x + gen', lambda y: y + (e for e in more), srt(m + more), True
        yield 'x + x', lambda y: y + y, srt(m + m), True
        yield 'x + SortedKeyList(ASC)', lambda y: y + SortedKeyList(more, key=ASC), \
            srt(m + sorted(more, key=ASC)), True
        yield 'more + x', lambda y: more + y, None, more + m
        yield '[] + x', lambda y: [] + y, None, m
        yield 'tuple + x', lambda y: y.__radd__(tuple(more)), None, more + m
        for c in (0, 1, 2, 3, -1):
            yield 'x * %d' % c, lambda y, c=c: y * c, srt(m * c), True
            yield '%d * x' % c, lambda y, c=c: c * y, srt(m * c), True
        yield 'x += more', lambda y: operator.iadd(y, more), srt(m + more), True
        yield 'x *= 2', lambda y: operator.imul(y, 2), srt(m * 2), True
        yield 'x *= 0', lambda y: operator.imul(y, 0), [], True
        yield 'x.clear()', lambda y: (y.clear(), y)[1], [], True
        yield 'x._reset(5)', lambda y: (y._reset(5), y)[1], m, True
        yield 'cls(x, key)', lambda y: cls(y, key=NEG), m, True
        yield 'SortedKeyList(x, ASC)', None, None, None
        yield 'SortedList(x, x.key)', None, None, None

    def on_state(self, x, m, st):
        k = self.kind
        okd = set()
        for text, fn, exp, ident in self.derive(m):
            y = clone(x)
            if fn is None:
                if 'ASC' in text:
                    r = SortedKeyList(y, key=ASC)
                    key_is(r, ASC, text, SortedKeyList)
                    check_contents(r, sorted(m, key=ASC))
                else:
                    r = SortedList(y, y.key)
                    key_is(r, NEG, text, SortedKeyList)
                    check_contents(r, m)
                continue
            r = fn(y)
            st.add('transitions')
            key_is(r, NEG, text, self.cls)
            has_key_methods(r, text)
            if exp is None:
                # left operand is not ours: order among equal keys is not promised
                got = list(r)
                if [NEG(e) for e in got] != sorted(NEG(e) for e in ident) or sorted(
                        map(id, got)) != sorted(map(id, ident)):
                    raise Violation('list(%s)' % text, ident, got)
                exp = got
            elif ident:
                check_contents(r, exp)
            else:
                if list(r) != exp:
                    raise Violation('list(%s)' % text, exp, list(r))
                exp = list(r)
            d = digest(r, self.valmap(exp))
            if d not in okd:
                okd.add(d)
                q_search(clone(r), exp, k, stops=False)
                if len(exp) < 7:
                    q_range(clone(r), exp, k)
                for v in ([exp[0], exp[-1]] if exp else []) + [k.elem(0.75)]:
                    c = clone(r)
                    w = k.elem(v.real, 9)
                    c.add(w)
                    check_contents(c, sorted(exp + [w], key=NEG))
                    c.remove(w)
                    check_contents(c, exp)
                    c.update([w, k.elem(v.real, 8)])
                    if len(c) != len(exp) + 2 or [NEG(e) for e in c] != sorted(
                            NEG(e) for e in list(c)):
                        raise Violation('%s; update' % text, 'sorted by key', list(c))
                    st.add('transitions', 3)
        st.add('batteries')


SETOPS = (('|', operator.or_), ('&', operator.and_), ('-', operator.sub),
          ('^', operator.xor))
IOPS = (('|=', operator.ior, operator.or_), ('&=', operator.iand, operator.and_),
        ('-=', operator.isub, operator.sub), ('^=', operator.ixor, operator.xor))


class SSys(SetSys):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.kind = DKIND_NEG

    def derive(self, order, m):
        k = self.kind
        fresh = [k.elem(0.25), k.elem(-7.0, 1)]
        tie = [k.elem(k.code(order[0])[0], 7)] if order else []
        yield 'ss.copy()', lambda s: s.copy(), m
        yield 'copy.copy(ss)', copy.copy, m
        yield 'copy.deepcopy(ss)', copy.deepcopy, m
        for p in range(pickle.HIGHEST_PROTOCOL + 1):
            yield 'pickle %d' % p, lambda s, p=p: pickle.loads(pickle.dumps(s, p)), m
        others = [set(), set(order[:2]) | set(fresh) | set(tie), set(order),
                  set(order[1:])]
        for o in others:
            forms = [('set', set), ('frozenset', frozenset), ('ASet', ASet),
                     ('SortedSet(NEG)', lambda v: SortedSet(v, key=NEG)),
                     ('SortedSet(ASC)', lambda v: SortedSet(v, key=ASC)),
                     ('dict.keys()', lambda v: dict.fromkeys(v).keys())]
            for fn, mk in forms:
                for sym, op in SETOPS:
                    yield ('ss %s %s(%r)' % (sym, fn, o),
                           lambda s, op=op, mk=mk, o=o: op(s, mk(o)), op(m, o))
                    if fn in ('set', 'frozenset'):
                        yield ('%s(%r) %s ss' % (fn, o, sym),
                               lambda s, op=op, mk=mk, o=o: op(mk(o), s), op(o, m))
                for sym, op, pop in IOPS:
                    yield ('ss %s %s(%r)' % (sym, fn, o),
                           lambda s, op=op, mk=mk, o=o: op(s, mk(o)), pop(m, o))
            for nm in ('union', 'intersection', 'difference', 'symmetric_difference'):
                for fn, mk in forms[:1] + forms[4:5] + [
                        ('list', list), ('gen', lambda v: (e for e in v))]:
                    yield ('ss.%s(%s(%r))' % (nm, fn, o),
                           lambda s, nm=nm, mk=mk, o=o: getattr(s, nm)(mk(o)),
                           getattr(m, nm)(o))
                if nm[0] != 's':
                    yield ('ss.%s(a, b)' % nm, lambda s, nm=nm, o=o: getattr(s, nm)(
                        o, list(fresh)), getattr(m, nm)(o, fresh))
                    yield ('ss.%s()' % nm, lambda s, nm=nm: getattr(s, nm)(), m)
            for nm in ('update', 'intersection_update', 'difference_update',
                       'symmetric_difference_update'):
                e = set(m)
                getattr(e, nm)(o)
                yield ('ss.%s(%r)' % (nm, o),
                       lambda s, nm=nm, o=o: (getattr(s, nm)(o), s)[1], e)
        yield 'ss.clear()', lambda s: (s.clear(), s)[1], set()
        yield 'ss._reset(5)', lambda s: (s._reset(5), s)[1], m
        yield 'SortedSet(ss, key)', lambda s: self.cls(s, key=s.key), m

    def on_state(self, b, m, st):
        k = self.kind
        okd = set()
        order = list(b.ss)
        for text, fn, exp in self.derive(order, m):
            y = clone(b)
            r = fn(y.ss)
            st.add('transitions')
            key_is(r, NEG, text, self.cls)
            has_key_methods(r, text)
            exp = set(exp)
            check_set(r, exp, k, 'list(%s)' % text)
            d = digest(r, self.valmap(exp))
            if d in okd:
                continue
            okd.add(d)
            if len(exp) < 4:
                q_setside(SBundle(clone(r), True), exp, k)
            for v in order[:1] + [k.elem(0.75)]:
                c = clone(r)
                w = k.elem(v.real, 9)
                c.add(w)
                check_set(c, exp | {w}, k, '%s; add' % text)
                c.update([k.elem(v.real, 8), k.elem(v.real, 6)])
                e2 = exp | {w, k.elem(v.real, 8), k.elem(v.real, 6)}
                check_set(c, e2, k, '%s; update' % text)
                c.remove(w)
                check_set(c, e2 - {w}, k, '%s; remove' % text)
                st.add('transitions', 3)
        st.add('batteries')


class DSys(DictSys):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.kind = DKIND_NEG

    def derive(self, order, m):
        k = self.kind
        fresh = {k.elem(0.25): 'f', k.elem(-7.0, 1): 'g'}
        if order:
            fresh[k.elem(k.code(order[0])[0], 7)] = 't'
            fresh[order[-1]] = 'r'
        yield 'sd.copy()', lambda s: s.copy(), m
        yield 'copy.copy(sd)', copy.copy, m
        yield 'copy.deepcopy(sd)', copy.deepcopy, m
        for p in range(pickle.HIGHEST_PROTOCOL + 1):
            yield 'pickle %d' % p, lambda s, p=p: pickle.loads(pickle.dumps(s, p)), m
        cls = self.cls
        for o in ({}, fresh, {q: 'z' for q in order[1:]}):
            for fn, mk in (('dict', dict), ('SortedDict(NEG)', lambda v: cls(NEG, v)),
                           ('SortedDict(ASC)', lambda v: SortedDict(ASC, v))):
                yield ('sd | %s(%r)' % (fn, o),
                       lambda s, mk=mk, o=o: s | mk(o), {**m, **o})
                yield ('sd |= %s(%r)' % (fn, o),
                       lambda s, mk=mk, o=o: operator.ior(s, mk(o)), {**m, **o})
                yield ('sd.update(%s(%r))' % (fn, o),
                       lambda s, mk=mk, o=o: (s.update(mk(o)), s)[1], {**m, **o})
            yield ('%r | sd' % (o,), lambda s, o=o: o | s, {**o, **m})
            yield ('sd.update(pairs)', lambda s, o=o: (s.update(list(o.items())), s)[1],
                   {**m, **o})
            yield ('sd.update(map)', lambda s, o=o: (s.update(AMapping(o)), s)[1],
                   {**m, **o})
        yield 'sd.clear()', lambda s: (s.clear(), s)[1], {}
        yield 'SortedDict(key, sd)', lambda s: cls(s.key, s), m
        yield 'SortedDict(key, items)', lambda s: cls(s.key, list(s.items())), m

    def on_state(self, b, m, st):
        k = self.kind
        okd = set()
        order = list(b.sd)
        for text, fn, exp in self.derive(order, m):
            y = clone(b)
            r = fn(y.sd)
            st.add('transitions')
            key_is(r, NEG, text, self.cls)
            has_key_methods(r, text)
            got = list(r.items())
            if len(got) != len(exp) or dict(got) != exp:
                raise Violation('items of %s' % text, exp, got)
            exp = dict(got)
            ks = [NEG(q) for q, v in got]
            if ks != sorted(ks):
                raise Violation('order of %s' % text, 'by key', got)
            d = digest(r, self.valmap(exp))
            if d in okd:
                continue
            okd.add(d)
            for q in order[:1] + [k.elem(0.75)]:
                for nm, f in (('bisect_key_left', operator.lt),
                              ('bisect_key_right', operator.le)):
                    a = getattr(r, nm)(NEG(q))
                    e = sum(1 for z in ks if f(z, NEG(q)))
                    if a != e:
                        raise Violation('(%s).%s(%r)' % (text, nm, NEG(q)), e, a)
                a = list(r.irange_key(NEG(q)))
                e = [z for z, v in got if NEG(z) >= NEG(q)]
                if a != e:
                    raise Violation('(%s).irange_key(%r)' % (text, NEG(q)), e, a)
            if len(exp) < 4:
                q_mapping(Bundle(clone(r)), {q: r[q] for q in r}, k)
            for v in order[:1] + [k.elem(0.75)]:
                c = clone(r)
                w = k.elem(v.real, 9)
                c[w] = 'w'
                e2 = dict(exp)
                e2[w] = 'w'
                check_dict(c, e2, k)
                pairs = [(k.elem(v.real, 8), 'a'), (k.elem(v.real, 6), 'b')]
                c.update(pairs)
                e2.update(pairs)
                check_dict(c, e2, k)
                del c[w]
                del e2[w]
                check_dict(c, e2, k)
                c.setdefault(w, 's')
                e2[w] = 's'
                check_dict(c, e2, k)
                st.add('transitions', 4)
        st.add('batteries')


# --------------------------------------------------------------------------
# every kind of key function, all short histories
# --------------------------------------------------------------------------

class Point:
    """Values with equality and hash only; any ordering comparison fails."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Point) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'P%d' % self.n

    def neg(self):
        return -self.n

    def _no(self, o):
        raise AssertionError('values were compared')

    __lt__ = __gt__ = __le__ = __ge__ = _no


class Method:
    def __init__(self, d):
        self.d = d

    def rank(self, p):
        return self.d - p.n

    __call__ = rank


def const(p):
    return 0


KEYFNS = {
    'attrgetter': operator.attrgetter('n'),
    'methodcaller': operator.methodcaller('neg'),
    'unbound method': Point.neg,
    'bound method': Method(3).rank,
    'callable object': Method(2),
    'partial': functools.partial(lambda d, p: p.n % d, 2),
    'lambda mod 3': lambda p: p.n % 3,
    'constant': const,
    'tuple': lambda p: (p.n % 2, -p.n),
    'unhashable': lambda p: [p.n % 2, p.n],
    'str': lambda p: 'v%d' % (p.n // 2),
    'repr': repr,
    'bool': lambda p: p.n > 1,
    'cmp_to_key': functools.cmp_to_key(lambda a, b: (a.n < b.n) - (a.n > b.n)),
    'id-like': lambda p: (p.n * 7) % 5,
}


def hist(case, st):
    """All histories of one container kind under one key function."""
    what, kname, seed, first, depth = case
    key = KEYFNS[kname]
    P = [Point(i) for i in range(5)]
    base = [P[i] for i in seed]
    alpha = []
    for p in P[:4]:
        alpha.append(('add', p))
        alpha.append(('del', p))
    alpha += [('pop', 0), ('pop', -1), ('update', (P[4], P[0], P[2])), ('copy',),
              ('deepcopy',), ('plus',), ('minus',), ('clearupdate',), ('rside',),
              ('iop',)]
    for rest in itertools.product(alpha, repeat=depth - 1):
        seq = (alpha[first],) + rest
        try:
            run_hist(what, key, base, seq, st)
        except Violation as v:
            v.info['trace'] = ['%s with key %s, initially %r' % (what, kname, base)] + [
                repr(s) for s in seq]
            raise
        except AssertionError as e:
            raise Violation('%s' % e, 'only keys are compared', None,
                            ['%s with key %s, initially %r' % (what, kname, base)] +
                            [repr(s) for s in seq])
        st.add('states')
    st.add('readonly', 0)


def run_hist(what, key, base, seq, st):
    if what == 'list':
        x = SortedList(base, key=key)
    elif what == 'set':
        x = SortedSet(base, key=key)
    else:
        x = SortedDict(key, ((p, p.n) for p in base))
    x._reset(4)
    ks = functools.cmp_to_key(lambda a, b: -1 if key(a) < key(b) else (
        1 if key(b) < key(a) else 0))
    m = sorted(base, key=ks)
    if what != 'list':
        m = sorted(dict.fromkeys(base), key=ks)
    uniq = what != 'list'

    def put(p):
        if uniq and p in m:
            return
        m.append(p)
        m.sort(key=ks)
    for op in seq:
        nm = op[0]
        if nm == 'add':
            if what == 'dict':
                x[op[1]] = op[1].n
            else:
                x.add(op[1])
            put(op[1])
        elif nm == 'del':
            if what == 'dict':
                x.pop(op[1], None)
            else:
                x.discard(op[1])
            if op[1] in m:
                m.remove(op[1])
        elif nm == 'pop':
            if m:
                cur = list(x)[op[1]]
                r = x.popitem(op[1])[0] if what == 'dict' else x.pop(op[1])
                if r is not cur:
                    raise Violation('pop(%d)' % op[1], cur, r)
                if what == 'list':
                    del m[op[1]]
                else:
                    m.remove(r)
        elif nm == 'update':
            x.update([(p, p.n) for p in op[1]] if what == 'dict' else op[1])
            for p in op[1]:
                put(p)
        elif nm == 'copy':
            x = x.copy()
        elif nm == 'deepcopy':
            x = copy.copy(x)
        elif nm == 'plus':
            v = Point(1)
            if what == 'list':
                x = x + [v]
            elif what == 'set':
                x = x | {v}
            else:
                x = x | {v: 1}
            put(v)
        elif nm == 'minus':
            if what == 'list':
                x = x * 2
                m = sorted(m * 2, key=ks)
            elif what == 'set':
                x = x - {Point(2)}
                m = [p for p in m if p.n != 2]
            else:
                x = x | x
        elif nm == 'clearupdate':
            old = list(x)
            x.clear()
            x.update([(p, p.n) for p in old] if what == 'dict' else old[::-1])
            m = sorted(old[::-1], key=ks)
        elif nm == 'rside':
            if what == 'list':
                x = 1 * x
            elif what == 'set':
                x = {Point(0), Point(3)} ^ x
                m = sorted(set(m) ^ {Point(0), Point(3)}, key=ks)
            else:
                x = {Point(3): 3} | x
                put(Point(3))
        elif nm == 'iop':
            if what == 'list':
                x += [Point(2)]
                put(Point(2))
            elif what == 'set':
                x &= set(m)
            else:
                x |= {Point(2): 2}
                put(Point(2))
        st.add('transitions')
        got = list(x)
        if x.key is not key:
            raise Violation('x.key after %r' % (op,), key, x.key)
        if what == 'list':
            if got != m:
                raise Violation('list(x) after %r' % (op,), m, got)
        else:
            if len(got) != len(m) or set(got) != set(m):
                raise Violation('members after %r' % (op,), m, got)
            for a, b in zip(got, got[1:]):
                if key(b) < key(a):
                    raise Violation('order after %r' % (op,), m, got)
    for i, p in enumerate(list(x)):
        k = key(p)
        lo = sum(1 for z in m if key(z) < k)
        hi = sum(1 for z in m if not k < key(z))
        for nm, e in (('bisect_left', lo), ('bisect_right', hi), ('bisect', hi)):
            a = getattr(x, nm)(p)
            if a != e:
                raise Violation('x.%s(%r)' % (nm, p), e, a)
            a = getattr(x, nm.replace('bisect', 'bisect_key'))(k)
            if a != e:
                raise Violation('x.%s(%r)' % (nm.replace('bisect', 'bisect_key'), k),
                                e, a)
        a = list(x.irange_key(k, k))
        e = [z for z in list(x) if not k < key(z) and not key(z) < k]
        if a != e or list(x.irange(p, p)) != e:
            raise Violation('x.irange_key(%r, %r)' % (k, k), e, a)
        if list(x.irange_key(k, None, (False, True), True)) != [
                z for z in list(x) if k < key(z)][::-1]:
            raise Violation('x.irange_key(%r, None, (False, True), True)' % (k,))
        if not (p in x) or x.index(p) != list(x).index(p):
            raise Violation('x.index(%r)' % (p,), list(x).index(p), x.index(p))


def construct(case, st):
    """Which class and key every construction form yields."""
    kname, n = case
    key = KEYFNS[kname]
    vals = [Point(i) for i in range(n)]
    d = {p: p.n for p in vals}
    forms = [
        ('SortedList(v, key=f)', lambda: SortedList(vals, key=key), SortedKeyList),
        ('SortedList(v, f)', lambda: SortedList(vals, key), SortedKeyList),
        ('SortedList(iterable=v, key=f)', lambda: SortedList(iterable=vals, key=key),
         SortedKeyList),
        ('SortedKeyList(v, f)', lambda: SortedKeyList(vals, key), SortedKeyList),
        ('SortedKeyList(v, key=f)', lambda: SortedKeyList(vals, key=key),
         SortedKeyList),
        ('SubKeyList(v, key=f)', lambda: SubKeyList(vals, key=key), SubKeyList),
        ('SortedListWithKey', lambda: SortedListWithKey(vals, key=key), None),
        ('SortedSet(v, f)', lambda: SortedSet(vals, key), SortedSet),
        ('SortedSet(v, key=f)', lambda: SortedSet(vals, key=key), SortedSet),
        ('SortedSet(iterable=, key=)', lambda: SortedSet(iterable=vals, key=key),
         SortedSet),
        ('SubSet(v, key=f)', lambda: SubSet(vals, key=key), SubSet),
        ('SortedDict(f, d)', lambda: SortedDict(key, d), SortedDict),
        ('SortedDict(f, pairs)', lambda: SortedDict(key, list(d.items())), SortedDict),
        ('SubDict(f, d)', lambda: SubDict(key, d), SubDict),
    ]
    for text, fn, cls in forms:
        if cls is None:
            import sortedcontainers
            SLK = getattr(sortedcontainers, 'SortedListWithKey', None)
            if SLK is None:
                continue
            r = SLK(vals, key=key)
            if not isinstance(r, SortedKeyList):
                raise Violation(text, 'SortedKeyList', type(r))
        else:
            r = fn()
            if type(r) is not cls:
                raise Violation('type of ' + text, cls, type(r))
        if r.key is not key:
            raise Violation('key of ' + text, key, r.key)
        has_key_methods(r, text)
        got = list(r)
        if len(got) != n or set(got) != set(vals):
            raise Violation('contents of ' + text, vals, got)
        for a, b in zip(got, got[1:]):
            if key(b) < key(a):
                raise Violation('order of ' + text, 'by key', got)
        st.add('transitions')
    for text, r in (('SortedList()', SortedList()), ('SortedList(key=None)',
                                                     SortedList(key=None)),
                    ('SortedSet()', SortedSet()), ('SortedDict()', SortedDict()),
                    ('SortedSet(key=None)', SortedSet(key=None)),
                    ('SortedDict(None)', SortedDict(None)),
                    ('SortedDict(None, {})', SortedDict(None, {1: 2}))):
        if r.key is not None:
            raise Violation(text + '.key', None, r.key)
        for c in (r.copy(), copy.copy(r), pickle.loads(pickle.dumps(r))):
            if c.key is not None or type(c) is not type(r):
                raise Violation('copy of ' + text, None, c.key)
        st.add('transitions')
    if type(SortedList(key=None)) is not SortedList:
        raise Violation('type of SortedList(key=None)')


def bigger(case, st):
    """Derived containers beyond the default load factor, unorderable values."""
    what, n, kname = case
    key = KEYFNS[kname]
    vals = [Point(i) for i in range(n)]
    if what == 'list':
        x = SortedList(vals, key=key)
        rs = [x.copy(), x + [], x * 1, 1 * x, copy.copy(x), x + x, 2 * x]
    elif what == 'set':
        x = SortedSet(vals, key=key)
        e = {Point(-1)}
        rs = [x.copy(), x | e, e | x, x - e, x & set(vals), set(vals) & x, x ^ e, e ^ x,
              set(vals) - SortedSet(vals[:3], key=key)]
    else:
        x = SortedDict(key, ((p, 0) for p in vals))
        rs = [x.copy(), x | {}, {} | x, copy.copy(x), x | {Point(-1): 1}]
    for i, r in enumerate(rs):
        ks = [key(p) for p in r]
        if r.key is not key or any(b < a for a, b in zip(ks, ks[1:])):
            raise Violation('result %d of %r' % (i, case), 'ordered by key', ks)
        w = Point(10 ** 6)
        if what == 'dict':
            r[w] = 1
        else:
            r.add(w)
        ks = [key(p) for p in r]
        if any(b < a for a, b in zip(ks, ks[1:])) or w not in r:
            raise Violation('result %d of %r after add' % (i, case), 'ordered', ks)
        r._check()
        st.add('transitions')


def mod3(v):
    return v % 3


def neg_int(v):
    return -v


def dist(at):
    return lambda v: abs(v - at)


# the last two have the same type, name and code
TWO = {'none': None, 'neg': neg_int, 'mod': mod3, 'ident': int, 'dist 0': dist(0),
       'dist 2': dist(2)}


def two_case(case, st):
    """Both operands sorted containers, each with its own key function or none: the
    left operand's key function orders the result; both operands stay as they were."""
    what, ka, kb, a, b = case
    fa, fb = TWO[ka], TWO[kb]

    def make(vals, key):
        if what == 'set':
            return SortedSet(vals, key=key)
        if what == 'dict':
            return SortedDict(key, ((v, -v) for v in vals))
        return SortedKeyList(vals, key=key) if key else SortedList(vals)
    x, y = make(a, fa), make(b, fb)
    lx, ly = list(x), list(y)
    if what == 'set':
        jobs = [(nm, lambda nm=nm: getattr(x, nm)(y), getattr(set(a), nm)(b)) for nm in (
            'union', 'intersection', 'difference', 'symmetric_difference')]
        jobs += [(sym, lambda op=op: op(x, y), op(set(a), set(b))) for sym, op in SETOPS]
        jobs += [(nm + '(x, y, x)', lambda nm=nm: getattr(x, nm)(y, x),
                  getattr(set(a), nm)(b, a)) for nm in (
            'union', 'intersection', 'difference')]
        jobs += [(sym, lambda op=op: op(x.copy(), y), pop(set(a), set(b)))
                 for sym, op, pop in IOPS]
        jobs += [('SortedSet(y, key of x)', lambda: SortedSet(y, key=fa), set(b))]
    elif what == 'dict':
        e = {v: -v for v in list(a) + list(b)}

        def ior():
            z = x.copy()
            z |= y
            return z

        def upd():
            z = x.copy()
            z.update(y)
            return z
        jobs = [('|', lambda: x | y, e), ('|=', ior, e), ('update', upd, e),
                ('SortedDict(key of x, y)', lambda: SortedDict(fa, y),
                 {v: -v for v in b})]
    else:
        def iadd():
            z = x.copy()
            z += y
            return z

        def upd():
            z = x.copy()
            z.update(y)
            return z
        e = list(a) + list(b)
        jobs = [('+=', iadd, e), ('update', upd, e),
                ('constructor', lambda: type(x)(y, key=fa) if fa else SortedList(y), b)]
        if (fa is None) == (fb is None):
            jobs.append(('+', lambda: x + y, e))
    for text, fn, e in jobs:
        r = fn()
        st.add('transitions')
        got = list(r)
        ks = [fa(v) for v in got] if fa else got
        if type(r) is not type(x) or r.key is not fa:
            raise Violation('%s of %r' % (text, case), (type(x), fa), (type(r), r.key))
        if sorted(got) != sorted(e) or ks != sorted(ks) or len(r) != len(got):
            raise Violation('%s of %r' % (text, case), sorted(e, key=fa), got)
        if what == 'dict' and dict(r) != e:
            raise Violation('%s of %r' % (text, case), e, dict(r))
        has_key_methods(r, text) if fa else None
        r._check()
        if what == 'dict':
            r[50] = 1
        else:
            r.add(50)
        if list(x) != lx or list(y) != ly or x.key is not fa or y.key is not fb:
            raise Violation('%s of %r changed an operand' % (text, case))
    st.kind('%s/%s' % (ka, kb))


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    cov.bfs('list', LSys('key', 4, 12 if deep else 9))
    cov.bfs('list-ties', LSys('key', 4, 8 if deep else 6, distinct=False, kmax=3,
                              emax=2))
    cov.bfs('sublist', LSys('key', 4, 9 if deep else 5, cls=SubKeyList))
    cov.bfs('set-ties', SSys('key', 4, 8 if deep else 5, kmax=3, emax=3))
    cov.bfs('set', SSys('key', 4, 11 if deep else 8))
    cov.bfs('subset', SSys('key', 4, 5 if deep else 4, kmax=2, emax=2, cls=SubSet))
    cov.bfs('dict-ties', DSys('key', 4, 8 if deep else 6, kmax=3, emax=3))
    cov.bfs('dict', DSys('key', 4, 11 if deep else 8))
    cov.bfs('subdict', DSys('key', 4, 5 if deep else 4, kmax=2, emax=2, cls=SubDict))
    D = 4 if deep else 3
    cov.cases('key-functions', 'all histories of %d calls (18 calls) under %d key '
              'functions, from %s' % (D, len(KEYFNS), 'two seeds'),
              [(w, kn, s, f, D) for w in ('list', 'set', 'dict') for kn in KEYFNS
               for s in ((), (3, 1, 0, 2, 4, 1, 0, 3, 2)) for f in range(18)],
              hist, timeout=300)
    cov.cases('construct', 'every construction form',
              [(kn, n) for kn in KEYFNS for n in (0, 1, 2, 5, 13)], construct)
    cov.cases('larger', 'derived containers around the default load factor',
              [(w, n, kn) for w in ('list', 'set', 'dict')
               for n in (999, 1001, 2001, 2500)
               for kn in ('methodcaller', 'lambda mod 3', 'tuple', 'constant')
               if not (kn == 'constant' and n > 1001)], bigger)
    small = [t for r in range(4) for t in itertools.product(range(-1, 4), repeat=r)
             if len(set(t)) == len(t) and (r < 3 or deep or t[0] < t[1])]
    few = [(), (0,), (3, 1), (2, 0, 1), (-1, 3, 2), tuple(range(12))]
    cov.cases('two-keys', 'both operands sorted containers, each with its own key '
              'function or none', [
                  (w, ka, kb, a, b) for w in ('list', 'set', 'dict') for ka in TWO
                  for kb in TWO for a in small + few for b in (small if deep else few)],
              two_case)
    return cov.result(['set algebra of key views of keyed dicts is outside this '
                       'property (see DESIGN.md)'])
