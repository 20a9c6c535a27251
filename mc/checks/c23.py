"""C23 Subclasses work: results keep the class, overrides do not break internals."""
import copy
import operator
import pickle
import sys

from .. import keys as keymod
from ..core import (Cov, SortedDict, SortedKeyList, SortedList, SortedSet, Violation,
                    clone)
from ..dicts import (Bundle, DictSys, check_dict, q_mapping, q_views, q_viewsets)
from ..dicts import q_check as d_check
from ..keys import (ASC, NEG, LoadKeyList, LoadList, SubDict, SubKeyList, SubList,
                    SubSet)
from ..lists import (KINDS, ListSys, check_contents, q_basic, q_islice, q_light,
                     q_range, q_search, q_slices, q_struct)
from ..sets import ASet, SBundle, SetSys, check_set, q_setside
from ..sets import q_check as s_check


class Used(BaseException):
    """An overridden public method was called from inside the library."""


def guard(base, name):
    orig = getattr(base, name)

    def method(self, *a, **k):
        caller = sys._getframe(1).f_globals.get('__name__', '')
        if not caller.startswith('mc.'):
            raise Used('overridden %s.%s was called by %s.%s' % (
                base.__name__, name, caller, sys._getframe(1).f_code.co_name))
        return orig(self, *a, **k)
    method.__name__ = name
    return method


def override(base, *names):
    """A subclass overriding public methods; any call of an override that does not
    come from the harness is reported."""
    cls = type('Over_' + '_'.join(n.strip('_') for n in names), (base,),
               {n: guard(base, n) for n in names})
    cls.__module__ = keymod.__name__
    setattr(keymod, cls.__name__ + base.__name__, cls)
    cls.__qualname__ = cls.__name__ + base.__name__
    cls.__name__ = cls.__qualname__
    return cls


def guarded(fn, *a):
    try:
        return fn(*a)
    except Used as u:
        raise Violation('a public method overridden in a subclass is used internally',
                        'not called', str(u))


ALIASED = {
    SortedList: ('clear', 'update', '__getitem__', 'bisect_right'),
    SortedKeyList: ('clear', 'update', '__getitem__', 'bisect_right', 'irange_key',
                    'bisect_key_left', 'bisect_key_right'),
    SortedSet: ('add', 'discard', 'update'),
    SortedDict: ('__setitem__', 'update'),
}
CLASSES = {b: [override(b, n) for n in ns] + [override(b, *ns)]
           for b, ns in ALIASED.items()}


def is_class(r, cls, text):
    if type(r) is not cls:
        raise Violation('type(%s)' % text, cls.__name__, type(r).__name__)


# --------------------------------------------------------------------------

class LSys(ListSys):
    def __init__(self, cls, kind, *a, **k):
        self.cls = cls
        super().__init__(kind, *a, **k)

    def label(self, n):
        return ['x = %s(%s); x._reset(%d)  # subclass, see mc/checks/c23.py' % (
            self.cls.__name__, 'key=negreal' if self.kind.keyed else '', self.load)]

    def make(self, values=None):
        if self.kind.keyed:
            return self.cls(values, key=self.kind.key)
        return self.cls(values)

    def build(self, n):
        x = self.make()
        x._reset(self.load)
        return x, []

    def step(self, x, m, op):
        return guarded(ListSys.step, self, x, m, op)

    def on_leaf(self, x, m, st):
        guarded(ListSys.on_leaf, self, x, m, st)

    def on_state(self, x, m, st):
        guarded(self.battery_, x, m, st)

    def battery_(self, x, m, st):
        k = self.kind
        cls = self.cls
        for f in (q_basic, q_light, q_struct):
            f(clone(x), m, k)
        q_search(clone(x), m, k, stops=len(m) < 5)
        if len(m) < 7:
            q_range(clone(x), m, k)
            q_slices(clone(x), m, k)
        q_islice(clone(x), m, k)
        def srt(l):
            return sorted(l, key=k.okey)
        extra = [k.elem(0.25), k.elem(9.5)]
        for text, fn, exp in (
                ('x.copy()', lambda y: y.copy(), m),
                ('copy.copy(x)', copy.copy, m),
                ('x + []', lambda y: y + [], m),
                ('x + extra', lambda y: y + extra, srt(m + extra)),
                ('extra + x', lambda y: extra + y, srt(m + extra)),
                ('x + x', lambda y: y + y, srt(m + m)),
                ('x + SortedList', lambda y: y + SortedList(extra, key=k.key),
                 srt(m + extra)),
                ('x * 0', lambda y: y * 0, []), ('x * 2', lambda y: y * 2, srt(m * 2)),
                ('3 * x', lambda y: 3 * y, srt(m * 3)),
                ('x += extra', lambda y: operator.iadd(y, extra), srt(m + extra)),
                ('x *= 2', lambda y: operator.imul(y, 2), srt(m * 2)),
                ('x *= 0', lambda y: operator.imul(y, 0), [])):
            y = clone(x)
            r = fn(y)
            is_class(r, cls, text)
            check_contents(r, exp)
            q_light(clone(r), exp, k)
            if hasattr(r, '_check'):
                r._check()
            v = k.elem(4.75)
            r.add(v)
            check_contents(r, srt(exp + [v]))
            r.remove(v)
            r.pop() if exp else None
            check_contents(r, exp[:-1])
            st.add('transitions')
        for text, fn in (('deepcopy', copy.deepcopy),) + ((
                ('pickle', lambda y: pickle.loads(pickle.dumps(y))),)
                if not k.keyed else ()):
            r = fn(clone(x))
            is_class(r, cls, text)
            if list(r) != m:
                raise Violation('list(%s)' % text, m, list(r))
            st.add('transitions')
        # __init__ again: same object, fresh contents
        y = clone(x)
        y.__init__(extra, **({'key': k.key} if k.keyed else {}))
        check_contents(y, srt(extra))
        q_light(y, srt(extra), k)
        st.add('batteries')


class SSys(SetSys):
    def __init__(self, cls, *a, **k):
        super().__init__(*a, cls=cls, **k)

    def step(self, b, m, op):
        return guarded(SetSys.step, self, b, m, op)

    def on_leaf(self, b, m, st):
        guarded(SetSys.on_leaf, self, b, m, st)

    def on_state(self, b, m, st):
        guarded(self.battery_, b, m, st)

    def battery_(self, b, m, st):
        k = self.kind
        cls = self.cls
        if len(m) < 5:
            q_setside(clone(b), m, k)
        s_check(clone(b), m, k)
        order = list(b.ss)

        def inplace(nm, o):
            e = set(m)
            getattr(e, nm)(o)
            return (lambda s: (getattr(s, nm)(o), s)[1]), e
        D = [('ss.copy()', lambda s: s.copy(), m), ('copy.copy(ss)', copy.copy, m),
             ('deepcopy', copy.deepcopy, m)]
        if not k.keyed:
            D.append(('pickle', lambda s: pickle.loads(pickle.dumps(s)), m))
        fresh = [k.elem(0.25), k.elem(19.5)]
        for o in (set(), set(order), set(order[1:] + fresh), set(order[:1]),
                  {k.elem(40.0 + i) for i in range(9)}):
            for fn, mk in (('set', set), ('frozenset', frozenset), ('ASet', ASet),
                           ('SortedSet', lambda v: SortedSet(v, key=k.key)),
                           ('SubSet', lambda v: SubSet(v, key=k.key))):
                for sym, op, iop in (('|', operator.or_, operator.ior),
                                     ('&', operator.and_, operator.iand),
                                     ('-', operator.sub, operator.isub),
                                     ('^', operator.xor, operator.ixor)):
                    D.append(('ss %s %s' % (sym, fn), lambda s, op=op, mk=mk, o=o:
                              op(s, mk(o)), op(m, o)))
                    D.append(('ss %s= %s' % (sym, fn), lambda s, op=iop, mk=mk, o=o:
                              op(s, mk(o)), op(m, o)))
                    if fn in ('set', 'frozenset'):
                        D.append(('%s %s ss' % (fn, sym), lambda s, op=op, mk=mk, o=o:
                                  op(mk(o), s), op(o, m)))
            for nm in ('union', 'intersection', 'difference', 'symmetric_difference'):
                for mk in (set, list):
                    D.append(('ss.%s(%s)' % (nm, mk.__name__),
                              lambda s, nm=nm, mk=mk, o=o: getattr(s, nm)(mk(o)),
                              getattr(m, nm)(o)))
            for nm in ('update', 'intersection_update', 'difference_update',
                       'symmetric_difference_update'):
                D.append(('ss.%s' % nm,) + inplace(nm, o))
        D.append(('ss.clear()', lambda s: (s.clear(), s)[1], set()))
        for text, fn, exp in D:
            y = clone(b)
            r = fn(y.ss)
            is_class(r, cls, text)
            exp = set(exp)
            check_set(r, exp, k, text)
            with_check(r)
            v = k.elem(4.75)
            r.add(v)
            check_set(r, exp | {v}, k, text + '; add')
            r.remove(v)
            check_set(r, exp, k, text + '; remove')
            st.add('transitions')
        st.add('batteries')


def with_check(r):
    if hasattr(r, '_check'):
        r._check()


class DSys(DictSys):
    def __init__(self, cls, *a, **k):
        super().__init__(*a, cls=cls, **k)

    def step(self, b, m, op):
        return guarded(DictSys.step, self, b, m, op)

    def on_leaf(self, b, m, st):
        guarded(DictSys.on_leaf, self, b, m, st)

    def on_state(self, b, m, st):
        guarded(self.battery_, b, m, st)

    def battery_(self, b, m, st):
        k = self.kind
        cls = self.cls
        d_check(clone(b), m, k)
        if len(m) < 6:
            q_mapping(clone(b), m, k)
            q_views(clone(b), m, k)
        order = list(b.sd)
        D = [('sd.copy()', lambda s: s.copy(), m), ('copy.copy(sd)', copy.copy, m),
             ('deepcopy', copy.deepcopy, m)]
        if not k.keyed:
            D.append(('pickle', lambda s: pickle.loads(pickle.dumps(s)), m))
            D.append(('cls.fromkeys', lambda s: cls.fromkeys(s, 1),
                      dict.fromkeys(m, 1)))
            D.append(('sd.fromkeys', lambda s: s.fromkeys(order), dict.fromkeys(m)))
        fresh = {k.elem(0.25): 'f', k.elem(19.5): 'g'}
        for o in ({}, fresh, {**fresh, **{q: 'z' for q in order[:2]}},
                  {k.elem(40.0 + i): i for i in range(9)}):
            for fn, mk in (('dict', dict), ('SortedDict', lambda v: SortedDict(v)
                                            if not k.keyed else SortedDict(k.key, v)),
                           ('SubDict', lambda v: SubDict(v) if not k.keyed else
                            SubDict(k.key, v))):
                if not issubclass(SubDict, cls):
                    # an operand of an unrelated subclass on the right keeps ours
                    D.append(('sd | %s' % fn, lambda s, mk=mk, o=o: s | mk(o),
                              {**m, **o}))
                D.append(('sd |= %s' % fn, lambda s, mk=mk, o=o:
                          operator.ior(s, mk(o)), {**m, **o}))
            D.append(('dict | sd', lambda s, o=o: dict(o) | s, {**o, **m}))
            D.append(('sd.update', lambda s, o=o: (s.update(o), s)[1], {**m, **o}))
            D.append(('sd.update(pairs)', lambda s, o=o: (
                s.update(list(o.items())), s)[1], {**m, **o}))
            D.append(('cls(...)', lambda s, o=o: cls(k.key, o), o))
        if order:
            e = dict(m)
            del e[order[0]]
            D.append(('sd.popitem(0)', lambda s: (s.popitem(0), s)[1], e))
            D.append(('sd.pop', lambda s: (s.pop(order[0]), s)[1], e))
            D.append(('del sd.keys()[0]', lambda s: (
                s.keys().__delitem__(0), s)[1], e))
        D.append(('sd.setdefault', lambda s: (s.setdefault(k.elem(0.25), 3), s)[1],
                  {k.elem(0.25): 3, **m}))
        D.append(('sd.clear()', lambda s: (s.clear(), s)[1], {}))
        for text, fn, exp in D:
            y = clone(b)
            r = fn(y.sd)
            is_class(r, cls, text)
            got = list(r.items())
            ks = [k.okey(q) for q, v in got]
            if dict(got) != exp or len(got) != len(exp) or ks != sorted(ks):
                raise Violation('items of %s' % text, exp, got)
            with_check(r)
            exp = dict(got)
            v = k.elem(4.75)
            r[v] = 'n'
            exp[v] = 'n'
            check_dict(r, exp, k)
            del r[v]
            del exp[v]
            check_dict(r, exp, k)
            r.setdefault(v, 's')
            exp[v] = 's'
            check_dict(r, exp, k)
            st.add('transitions')
        st.add('batteries')


# --------------------------------------------------------------------------
# overrides that extend rather than forbid; histories at the default load factor
# --------------------------------------------------------------------------

class LogList(SortedList):
    """Every override does something visible and different."""

    def __init__(self, *a, **k):
        self.log = []
        super().__init__(*a, **k)

    def clear(self):
        self.log.append('clear')

    def update(self, it):
        self.log.append('update')

    def __getitem__(self, i):
        self.log.append('getitem')
        return 'overridden'

    def bisect_right(self, v):
        self.log.append('bisect_right')
        return 0


class LogKeyList(SortedKeyList):
    def __init__(self, *a, **k):
        self.log = []
        super().__init__(*a, **k)

    clear = LogList.clear
    update = LogList.update
    __getitem__ = LogList.__getitem__
    bisect_right = LogList.bisect_right

    def irange_key(self, *a, **k):
        self.log.append('irange_key')
        return iter(())

    def bisect_key_left(self, k):
        self.log.append('bisect_key_left')
        return 0

    def bisect_key_right(self, k):
        self.log.append('bisect_key_right')
        return 0


class LogSet(SortedSet):
    def __init__(self, *a, **k):
        self.log = []
        super().__init__(*a, **k)

    def add(self, v):
        self.log.append('add')

    def discard(self, v):
        self.log.append('discard')

    def update(self, *its):
        self.log.append('update')


class LogDict(SortedDict):
    def __init__(self, *a, **k):
        self.log = []
        super().__init__(*a, **k)

    def __setitem__(self, k, v):
        self.log.append('setitem')

    def update(self, *a, **k):
        self.log.append('update')


def logs(case, st):
    """Histories of inherited methods on the logging subclasses."""
    what, n, load, k2 = case
    vals = [float(i) for i in range(n)]
    more = [i + 0.5 for i in range(k2)]
    L = None

    def same(text, got, exp):
        st.add('transitions')
        if got != exp:
            raise Violation('%s %r' % (text, case), exp, got)
    if what in ('list', 'key'):
        if what == 'list':
            x, base, key = LogList(vals), SortedList, None
        else:
            x, base, key = LogKeyList(vals, key=NEG), SortedKeyList, NEG
        if load:
            x._reset(load)
        m = sorted(vals, key=key)
        same('list(x)', list(x), m)
        x += more
        m = sorted(m + more, key=key)
        same('x += more', list(x), m)
        for v in more[::2] + vals[:1] + vals[1:][-1:]:
            x.remove(v)
            m.remove(v)
        same('x.remove', list(x), m)
        for i in (0, -1, None):
            if m:
                i = len(m) // 2 if i is None else i
                same('x.pop(%d)' % i, x.pop(i), m.pop(i))
        for v in m[:3]:
            same('count', x.count(v), 1)
            same('index', x.index(v), m.index(v))
            same('bisect_left', x.bisect_left(v), m.index(v))
            same('bisect', x.bisect(v), m.index(v) + 1)
            same('irange', list(x.irange(v)), m[m.index(v):])
            same('irange rev', list(x.irange(None, v, (True, False), True)),
                 m[:m.index(v)][::-1])
            same('in', v in x, True)
            if key:
                same('bisect_key', x.bisect_key(key(v)), m.index(v) + 1)
        same('islice', list(x.islice(1, 7)), m[1:7])
        same('reversed', list(reversed(x)), m[::-1])
        h = len(m) // 3
        del x[h:]
        del m[h:]
        same('del x[h:]', list(x), m)
        del x[::2]
        del m[::2]
        same('del x[::2]', list(x), m)
        y = x * 3
        same('x * 3', list(y), sorted(m * 3, key=key))
        x *= 2
        m = sorted(m * 2, key=key)
        same('x *= 2', list(x), m)
        x.add(0.75)
        m = sorted(m + [0.75], key=key)
        same('add', list(x), m)
        same('x == list', x == m, True)
        same('copy', list(x.copy()), m)
        same('x + more', list(x + more), sorted(m + more, key=key))
        x._reset(7)
        same('_reset', list(x), m)
        x.discard(0.75)
        m.remove(0.75)
        del x[:]
        same('del x[:]', list(x), [])
        x.__init__(vals, **({'key': NEG} if key else {}))
        same('__init__', list(x), sorted(vals, key=key))
        x *= 0
        same('x *= 0', list(x), [])
        L = x.log
    elif what == 'set':
        x = LogSet(vals)
        if load:
            x._reset(load)
        m = set(vals)
        x |= set(more)
        m |= set(more)
        same('|=', list(x), sorted(m))
        x -= set(vals[:3])
        m -= set(vals[:3])
        same('-=', list(x), sorted(m))
        x ^= {0.5, 99.5}
        m ^= {0.5, 99.5}
        same('^=', list(x), sorted(m))
        x.difference_update(list(m)[:1])
        m.difference_update(list(m)[:1])
        same('difference_update', list(x), sorted(m))
        x.difference_update(sorted(m)[::2], sorted(m)[:3])
        m.difference_update(sorted(m)[::2] + sorted(m)[:3])
        same('difference_update many', list(x), sorted(m))
        for r, e in ((x | {0.1}, m | {0.1}), ({0.1} | x, m | {0.1}),
                     (x & set(vals), m & set(vals)), (x - set(vals), m - set(vals)),
                     (set(vals) - x, set(vals) - m), (x ^ set(vals), m ^ set(vals)),
                     (x.union([0.2], [0.3]), m | {0.2, 0.3}), (x.copy(), m)):
            same('algebra', (list(r), type(r)), (sorted(e), LogSet))
        if m:
            v = x.pop()
            m.discard(v)
            v = min(m, default=None)
            if v is not None:
                x.remove(v)
                m.remove(v)
        same('pop, remove', list(x), sorted(m))
        x &= set(vals)
        m &= set(vals)
        same('&=', list(x), sorted(m))
        x.symmetric_difference_update(vals)
        m.symmetric_difference_update(vals)
        same('symmetric_difference_update', list(x), sorted(m))
        del x[:2]
        same('del x[:2]', list(x), sorted(m)[2:])
        x.clear()
        same('clear', list(x), [])
        x._check()
        L = x.log
    else:
        x = LogDict(((v, 0) for v in vals))
        if load:
            x._reset(load)
        m = {v: 0 for v in vals}
        x |= {v: 1 for v in more}
        m |= {v: 1 for v in more}
        same('|=', list(x.items()), sorted(m.items()))
        same('setdefault', x.setdefault(-1.0, 5), m.setdefault(-1.0, 5))
        same('setdefault', x.setdefault(-1.0, 6), 5)
        same('setdefault none', x.setdefault(-2.0), m.setdefault(-2.0))
        same('items', list(x.items()), sorted(m.items()))
        for r, e in ((x | {0.1: 2}, m | {0.1: 2}), ({0.1: 2} | x, m | {0.1: 2}),
                     (x.copy(), m), (LogDict.fromkeys(vals, 3), dict.fromkeys(vals, 3)),
                     (copy.copy(x), m)):
            same('|', (list(r.items()), type(r)), (sorted(e.items()), LogDict))
        same('popitem', x.popitem(), (max(m), m.pop(max(m))))
        same('pop', x.pop(-1.0, None), m.pop(-1.0, None))
        del x[-2.0]
        del m[-2.0]
        del x.keys()[:2]
        for v in sorted(m)[:2]:
            del m[v]
        same('items', list(x.items()), sorted(m.items()))
        x._check()
        L = x.log
    if L:
        raise Violation('overrides were called by inherited methods %r' % (case,), [], L)


# --------------------------------------------------------------------------
# which class a result has, by size and by the class of the other operand
# --------------------------------------------------------------------------

class SubList2(SortedList):
    pass


class SubKeyList2(SortedKeyList):
    pass


class SubSet2(SortedSet):
    pass


class SubDict2(SortedDict):
    pass


class Deeper(SubDict):
    pass


class DeeperSet(SubSet):
    pass


class DeeperList(SubList):
    pass


def result_class(case, st):
    """Every derivation of a subclass object has the class of that object, at every
    size, whatever the other operand is (own class, base, sibling, plain), warm or not."""
    what, n, k, warm = case
    A = [float(i * 7 % (n or 1)) for i in range(n)]
    B = [float(i * 3) for i in range(k)]
    if what in ('list', 'key'):
        key = NEG if what == 'key' else None
        cls = SubKeyList if key else SubList
        mk = [(c, (lambda v, c=c: c(v, key=key) if key else c(v))) for c in (
            (SubKeyList, SortedKeyList, SubKeyList2) if key else
            (SubList, SortedList, SubList2))] + [(list, list), (tuple, tuple)]
        x = mk[0][1](A)
        base = sorted(A, key=key)
        jobs = [('x.copy()', lambda: x.copy(), A), ('copy.copy', lambda: copy.copy(x), A),
                ('deepcopy', lambda: copy.deepcopy(x), A),
                ('pickle', lambda: pickle.loads(pickle.dumps(x)), A)]
        jobs += [('x * %d' % q, lambda q=q: x * q, A * q) for q in (0, 1, 2, 3)]
        jobs += [('%d * x' % q, lambda q=q: q * x, A * q) for q in (0, 1, 2)]
        for c, f in mk:
            o = f(B)
            jobs += [('x + ' + c.__name__, lambda o=o: x + o, A + B),
                     ('x += ' + c.__name__, lambda o=o: operator.iadd(x.copy(), o), A + B)]
            if c in (list, tuple):
                jobs.append((c.__name__ + ' + x', lambda o=o: o + x, A + B))
        jobs += [('x *= 2', lambda: operator.imul(x.copy(), 2), A * 2),
                 ('x + x', lambda: x + x, A + A)]
        if key:
            jobs.append(('SortedList(key=)', None, A))
        exp = lambda e: sorted(e, key=key)
        new = lambda r: r.add(-5.5)
    elif what in ('set', 'keyset'):
        key = NEG if what == 'keyset' else None
        cls = SubSet
        x = SubSet(A, key=key)
        a, b = set(A), set(B)
        mk = [(c, (lambda v, c=c: c(v, key=key))) for c in (SubSet, SortedSet, SubSet2)]
        mk += [(set, set), (frozenset, frozenset), (ASet, ASet),
               ('keys', lambda v: dict.fromkeys(v).keys())]
        jobs = [('x.copy()', lambda: x.copy(), a), ('copy.copy', lambda: copy.copy(x), a),
                ('deepcopy', lambda: copy.deepcopy(x), a),
                ('pickle', lambda: pickle.loads(pickle.dumps(x)), a)]
        for c, f in mk:
            o = f(B)
            t = getattr(c, '__name__', c)
            for sym in ('or_', 'and_', 'sub', 'xor'):
                op, iop = getattr(operator, sym), getattr(operator, 'i' + sym.strip('_'),
                                                          None)
                iop = iop or getattr(operator, 'i' + sym)
                e = op(a, b)
                jobs += [('x %s %s' % (sym, t), lambda o=o, op=op: op(x, o), e),
                         ('x i%s %s' % (sym, t), lambda o=o, op=iop: op(x.copy(), o), e)]
                if c in (set, frozenset):
                    jobs.append(('%s %s x' % (t, sym), lambda o=o, op=op: op(o, x),
                                 op(b, a)))
            for nm in ('union', 'intersection', 'difference', 'symmetric_difference'):
                jobs.append(('x.%s(%s)' % (nm, t), lambda o=o, nm=nm: getattr(x, nm)(o),
                             getattr(a, nm)(b)))
            for nm in ('union', 'intersection', 'difference'):
                jobs.append(('x.%s(%s, x)' % (nm, t),
                             lambda o=o, nm=nm: getattr(x, nm)(o, x),
                             getattr(a, nm)(b, a)))
        for nm in ('union', 'intersection', 'difference'):
            jobs.append(('x.%s()' % nm, lambda nm=nm: getattr(x, nm)(), a))
        exp = lambda e: sorted(e, key=key)
        new = lambda r: r.add(-5.5)
        base = exp(a)
    else:
        key = NEG if what == 'keydict' else None
        cls = SubDict
        a, b = {v: 'a' for v in A}, {v: 'b' for v in B}
        x = SubDict(key, a)
        mk = [(c, (lambda v, c=c: c(key, v))) for c in (SubDict, SortedDict, SubDict2)]
        mk += [(dict, dict)]
        jobs = [('x.copy()', lambda: x.copy(), a), ('copy.copy', lambda: copy.copy(x), a),
                ('deepcopy', lambda: copy.deepcopy(x), a),
                ('pickle', lambda: pickle.loads(pickle.dumps(x)), a)]
        for c, f in mk:
            o = f(b)
            jobs += [('x | ' + c.__name__, lambda o=o: x | o, {**a, **b}),
                     ('x |= ' + c.__name__, lambda o=o: operator.ior(x.copy(), o),
                      {**a, **b})]
            if c is dict:
                jobs.append(('dict | x', lambda o=o: o | x, {**b, **a}))
        if key is None:
            jobs += [('fromkeys', lambda: SubDict.fromkeys(B), dict.fromkeys(B)),
                     ('x.fromkeys', lambda: x.fromkeys(B, 2), dict.fromkeys(B, 2)),
                     ('x.fromkeys(x)', lambda: x.fromkeys(x), dict.fromkeys(A))]
        exp = lambda e: sorted(e.items(), key=lambda p: key(p[0]) if key else p[0])
        new = lambda r: r.setdefault(-5.5, 1)
        base = exp(a)
    isd = isinstance(x, dict)
    show = (lambda r: list(r.items())) if isd else list
    if warm and n:
        (x.keys() if isd else x)[n and len(x) // 2]
    for text, f, e in jobs:
        if f is None:
            continue
        r = f()
        st.add('transitions')
        is_class(r, cls, '%s, %r' % (text, case))
        if r.key is not key and text != 'deepcopy':
            raise Violation('%s %r: key' % (text, case), key, r.key)
        got = show(r)
        if got != exp(e):
            raise Violation('%s %r' % (text, case), exp(e), got)
        r._check()
        new(r)
        if show(x) != base:
            raise Violation('%s %r changed its operand' % (text, case), base, show(x))
    st.kind(what)


def sub_right(case, st):
    """A subclass object on the right of a base one, a deeper one on either side."""
    what, n, k = case
    A = [float(i * 7 % (n or 1)) for i in range(n)]
    B = [float(i * 3) for i in range(k)]
    base, sub, deep = {'list': (SortedList, SubList, DeeperList),
                       'set': (SortedSet, SubSet, DeeperSet),
                       'dict': (SortedDict, SubDict, Deeper)}[what]
    make = (lambda c, v: c((w, 0) for w in v)) if what == 'dict' else (lambda c, v: c(v))
    ops = {'list': (operator.add,), 'dict': (operator.or_,),
           'set': (operator.or_, operator.and_, operator.sub, operator.xor)}[what]
    for p, q in ((base, sub), (sub, deep), (base, deep), (deep, sub), (sub, base),
                 (deep, base)):
        x, y = make(p, A), make(q, B)
        for op in ops:
            r = op(x, y)
            e = sorted(A + B) if what == 'list' else sorted(op(set(A), set(B)))
            # a subclass that inherits the reflected method does not take over
            if type(r) is not p or list(r) != e:
                raise Violation('%s(%s, %s) %r' % (op.__name__, p.__name__, q.__name__,
                                                   case), (p, e), (type(r), list(r)))
            st.add('transitions')


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    for base, kind in ((SortedList, 'list'), (SortedKeyList, 'key')):
        for cls in CLASSES[base]:
            all_ = cls is CLASSES[base][-1]
            cov.bfs(cls.__name__, LSys(cls, kind, 4, (11 if deep else 9) if all_ else
                                       (9 if deep else 6), opset='full'))
        sub = SubList if kind == 'list' else SubKeyList
        cov.bfs(sub.__name__, LSys(sub, kind, 4, 15 if deep else 12))
        cov.bfs(sub.__name__ + '-ties', LSys(sub, kind, 4, 9 if deep else 7,
                                             distinct=False, kmax=2))
        sub = LoadList if kind == 'list' else LoadKeyList
        cov.bfs(sub.__name__, LSys(sub, kind, 4, 12 if deep else 10))
    for kind in ('num', 'key'):
        for cls in CLASSES[SortedSet]:
            all_ = cls is CLASSES[SortedSet][-1]
            cov.bfs('%s-%s' % (cls.__name__, kind), SSys(
                cls, kind, 4, (11 if deep else 8) if all_ else (8 if deep else 5),
                'full', forms=('set', 'gen', 'list')))
        cov.bfs('SubSet-' + kind, SSys(SubSet, kind, 4, 13 if deep else 10))
        for cls in CLASSES[SortedDict]:
            all_ = cls is CLASSES[SortedDict][-1]
            cov.bfs('%s-%s' % (cls.__name__, kind), DSys(
                cls, kind, 4, (12 if deep else 9) if all_ else (9 if deep else 6),
                'full'))
        cov.bfs('SubDict-' + kind, DSys(SubDict, kind, 4, 13 if deep else 10))
    cov.cases('extending-overrides', 'one long history of inherited methods per size, '
              'batch and load on subclasses whose overrides misbehave visibly',
              [(w, n, load, k2) for w in ('list', 'key', 'set', 'dict')
               for n in (0, 1, 4, 9, 17, 30, 64, 150, 1100) + (
                   (2100, 4500) if deep else ())
               for load in (4, 5, None) for k2 in (0, 1, 3, 10, 40, 300)], logs)
    sizes = (0, 1, 2, 5, 8, 9, 10, 12, 16, 17, 40, 100, 1001, 1100, 2100)
    cov.cases('result-classes', 'every derivation of an object of a subclass by size and '
              'by the class of the other operand', [
                  (w, n, k, warm) for w in ('list', 'key', 'set', 'keyset', 'dict',
                                            'keydict') for n in sizes
                  for k in ((0, 1, 3, 9, 30, 1200) if deep else (0, 1, 9, 40))
                  for warm in (False, True)], result_class)
    cov.cases('result-of-two', 'a base, a subclass and its subclass on either side', [
        (w, n, k) for w in ('list', 'set', 'dict') for n in sizes
        for k in (0, 1, 9, 40)], sub_right)
    return cov.result(['only methods the library keeps a private alias for are '
                       'overridden'])
