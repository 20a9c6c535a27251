"""C20 Removed elements and dropped containers are released at once.

The layouts are enumerated by the breadth-first search over plain elements; each
history is then re-executed on a fresh container filled with weakly referenceable
elements (and key objects), the removing call is made, and with the cycle collector
off exactly the stored elements may still be alive."""
import copy
import gc
import itertools
import weakref

from ..core import (Cov, HarnessError, SortedDict, SortedKeyList, SortedList,
                    SortedSet, Violation)
from ..dicts import DictSys
from ..lists import ListSys
from ..sets import SetSys

SERIAL = itertools.count()


class E:
    """Element: ordered, compared and hashed by k; tracked by a weak reference."""
    __slots__ = ('k', 's', '__weakref__')

    def __init__(self, k, reg):
        self.k = k
        self.s = next(SERIAL)
        reg.append((self.s, weakref.ref(self)))

    def __eq__(self, o):
        return self.k == o.k

    def __lt__(self, o):
        return self.k < o.k

    def __gt__(self, o):
        return self.k > o.k

    def __le__(self, o):
        return self.k <= o.k

    def __ge__(self, o):
        return self.k >= o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'E(%r)' % (self.k,)


class K:
    """Key object made by the key function; remembers which element it is for."""
    __slots__ = ('q', 's', '__weakref__')

    def __init__(self, q, s, reg):
        self.q = q
        self.s = s
        reg.append((s, weakref.ref(self)))

    def __eq__(self, o):
        return self.q == o.q

    def __lt__(self, o):
        return self.q < o.q

    def __gt__(self, o):
        return self.q > o.q

    def __le__(self, o):
        return self.q <= o.q

    def __ge__(self, o):
        return self.q >= o.q

    def __hash__(self):
        return hash(self.q)


class V:
    __slots__ = ('s', '__weakref__')

    def __init__(self, reg):
        self.s = next(SERIAL)
        reg.append((self.s, weakref.ref(self)))


class SubL(SortedList):
    pass


class SubK(SortedKeyList):
    pass


class SubD(SortedDict):
    pass


class SubS(SortedSet):
    pass


class World:
    """One container and the registries of everything it was ever given."""

    def __init__(self, what, load=4, sub=False):
        self.what = what
        self.els, self.keys, self.vals = [], [], []
        keys = self.keys
        self.keyed = what in ('key', 'setkey', 'dictkey')
        key = None
        if self.keyed:
            def key(e, keys=keys):
                return K(-e.k, e.s, keys)
        if what == 'list':
            self.c = (SubL if sub else SortedList)()
        elif what == 'key':
            self.c = (SubK if sub else SortedKeyList)(key=key)
        elif what in ('set', 'setkey'):
            self.c = (SubS if sub else SortedSet)(key=key)
        else:
            cl = SubD if sub else SortedDict
            self.c = cl(key) if key else cl()
        if load:
            self.c._reset(load)

    def e(self, k):
        return E(k, self.els)

    def v(self):
        return V(self.vals)

    def fill(self, n):
        if self.what.startswith('dict'):
            self.c.update((self.e(float(i)), self.v()) for i in range(n))
        else:
            self.c.update(self.e(float(i)) for i in range(n))

    def replay(self, path):
        """Re-execute a history found by the search."""
        c = self.c
        for op in path:
            name = op[0]
            if self.what in ('list', 'key'):
                if name == 'add':
                    c.add(self.e(op[1]))
                elif name == 'pop':
                    c.pop(*op[1:])
                elif name == 'touch':
                    if 0 <= op[1] < len(c):
                        c[op[1]]
                else:
                    raise HarnessError('cannot replay %r' % (op,))
            elif self.what.startswith('set'):
                if name == 'add':
                    c.add(self.e(op[1]))
                elif name == 'discard':
                    c.discard(self.e(op[1]))
                elif name == 'touch':
                    if 0 <= op[1] < len(c):
                        c[op[1]]
                else:
                    raise HarnessError('cannot replay %r' % (op,))
            else:
                if name == 'set':
                    c[self.e(op[1])] = self.v()
                elif name == 'delk':
                    del c[self.e(op[1])]
                elif name == 'touch':
                    if 0 <= op[1] < len(c):
                        c.peekitem(op[1])
                else:
                    raise HarnessError('cannot replay %r' % (op,))

    def stale(self, text):
        """Alive must be stored; stored must be what the container lists."""
        c = self.c
        stored = {e.s for e in c}
        alive = {s for s, r in self.els if r() is not None}
        if alive != stored:
            raise Violation(
                '%s: elements still referenced although not in the container' % text,
                sorted(e.k for e in c),
                sorted(r().k for s, r in self.els if s in alive - stored))
        late = [s for s, r in self.keys if r() is not None and s not in stored]
        if late:
            raise Violation(
                '%s: keys of elements not in the container are still referenced' % text,
                'none', '%d key objects' % len(late))
        if self.what.startswith('dict'):
            vs = {v.s for v in c.values()}
            if {s for s, r in self.vals if r() is not None} != vs:
                raise Violation('%s: values not in the dict are still referenced' % text,
                                len(vs), None)

    def dropped(self, text):
        """Forget the container: everything must go at once."""
        w = weakref.ref(self.c)
        self.c = None
        if w() is not None:
            raise Violation('%s; del x: the container is still alive' % text,
                            'freed', 'alive')
        for what, reg in (('elements', self.els), ('keys', self.keys),
                          ('values', self.vals)):
            if any(r() is not None for s, r in reg):
                raise Violation('%s; del x: %s still alive' % (text, what), 'freed',
                                'alive')


def q(f, *a):
    """Call, swallow the outcome."""
    try:
        f(*a)
    except (IndexError, ValueError, KeyError, TypeError, NotImplementedError):
        pass


def list_ops(w, n, ks):
    c = w.c
    for i in range(-n - 1, n + 1):
        yield 'x.pop(%d)' % i, lambda c, i=i: q(c.pop, i)
        yield 'del x[%d]' % i, lambda c, i=i: q(c.__delitem__, i)
    yield 'x.pop()', lambda c: q(c.pop)
    for k in ks:
        yield 'x.remove(%r)' % k, lambda c, k=k: q(c.remove, w.e(k))
        yield 'x.discard(%r)' % k, lambda c, k=k: q(c.discard, w.e(k))
    yield 'x.remove(absent)', lambda c: q(c.remove, w.e(0.123))
    yield 'x.discard(absent)', lambda c: q(c.discard, w.e(0.123))
    yield 'x.clear()', lambda c: c.clear()
    yield 'x *= 0', lambda c: c.__imul__(0)
    yield 'x *= 2', lambda c: c.__imul__(2)
    pts = sorted({0, 1, 2, n // 2, n - 2, n - 1, n} & set(range(n + 1)))
    for a in pts:
        for b in pts:
            if a < b:
                yield 'del x[%d:%d]' % (a, b), lambda c, a=a, b=b: c.__delitem__(
                    slice(a, b))
    yield 'del x[::2]', lambda c: c.__delitem__(slice(None, None, 2))
    yield 'del x[::-3]', lambda c: c.__delitem__(slice(None, None, -3))
    yield 'x.update(1)', lambda c: c.update([w.e(0.25)])
    yield 'x.update(many)', lambda c: c.update(
        [w.e(30.0 + i) for i in range(2 * n + 3)])
    yield 'x += many', lambda c: c.__iadd__([w.e(-30.0 - i) for i in range(n + 9)])
    yield 'x + other', lambda c: c + [w.e(0.25)]
    yield 'x * 2', lambda c: c * 2
    yield 'x.copy()', lambda c: c.copy()
    yield 'x.append(v)', lambda c: q(c.append, w.e(0.5))
    yield 'x.insert(0, v)', lambda c: q(c.insert, 0, w.e(0.5))
    yield 'x[0] = v', lambda c: q(c.__setitem__, 0, w.e(0.5))
    yield 'reads', lambda c: reads(w, c)
    yield 'x._reset(5)', lambda c: c._reset(5)


def reads(w, c):
    e = w.e
    for k in (0.123, 99.0, -99.0, 1.0, 0.0, 2.0):
        e(k) in c
        c.bisect_left(e(k))
        c.bisect_right(e(k))
        q(c.index, e(k))
        if hasattr(c, 'count'):
            c.count(e(k))
        list(c.irange(e(k)))
        list(c.irange(None, e(k), (False, True), True))
        it = c.irange(e(k))
        next(it, None)
    it = iter(c)
    next(it, None)
    it = reversed(c)
    next(it, None)
    it = c.islice(1)
    next(it, None)
    list(c)
    repr(c)
    if isinstance(c, (SortedList, SortedSet)):
        c[:], c[1:3], c[::-1]
        q(c.__getitem__, len(c))
        c == [e(0.5)]
        c != c


def set_ops(w, n, ks):
    e = w.e
    for i in range(-n - 1, n + 1):
        yield 'ss.pop(%d)' % i, lambda c, i=i: q(c.pop, i)
        yield 'del ss[%d]' % i, lambda c, i=i: q(c.__delitem__, i)
    yield 'ss.pop()', lambda c: q(c.pop)
    for k in ks:
        yield 'ss.remove(%r)' % k, lambda c, k=k: q(c.remove, e(k))
        yield 'ss.discard(%r)' % k, lambda c, k=k: q(c.discard, e(k))
        yield 'ss.add(equal %r)' % k, lambda c, k=k: c.add(e(k))
        yield 'ss.update([equal %r])' % k, lambda c, k=k: c.update([e(k)])
        yield 'ss -= {%r}' % k, lambda c, k=k: c.__isub__({e(k)})
        yield 'ss &= {%r}' % k, lambda c, k=k: c.__iand__({e(k)})
        yield 'ss ^= {%r}' % k, lambda c, k=k: c.__ixor__({e(k)})
        yield 'ss.intersection_update([%r])' % k, lambda c, k=k: (
            c.intersection_update([e(k)]))
    yield 'ss.remove(absent)', lambda c: q(c.remove, e(0.123))
    yield 'ss.discard(absent)', lambda c: q(c.discard, e(0.123))
    yield 'ss.clear()', lambda c: c.clear()
    for s in ((1, None), (None, -1), (0, n // 2), (n // 2, n), (None, None, 2)):
        yield 'del ss[%r]' % (s,), lambda c, s=s: c.__delitem__(slice(*s))
    allk = list(ks)
    yield 'ss.difference_update(all)', lambda c: c.difference_update(
        [e(k) for k in allk])
    yield 'ss.difference_update(few)', lambda c: c.difference_update(
        [e(k) for k in allk[:1]] + [e(0.123)])
    yield 'ss.intersection_update()', lambda c: c.intersection_update([])
    yield 'ss.symmetric_difference_update', lambda c: c.symmetric_difference_update(
        [e(k) for k in allk[1:]] + [e(66.0)])
    yield 'ss.update(many)', lambda c: c.update(e(30.0 + i) for i in range(2 * n + 3))
    yield 'ss.update(few)', lambda c: c.update([e(30.5)], [e(30.5)])
    yield 'ss |= ss', lambda c: c.__ior__(c)
    yield 'ss - ss', lambda c: c - c
    yield 'ss | other', lambda c: c | {e(0.7)}
    yield 'ss ^ other', lambda c: c ^ {e(0.7)}
    yield 'ss & other', lambda c: c & {e(0.7)}
    yield 'ss.copy()', lambda c: (c.copy(), copy.copy(c))
    yield 'compares', lambda c: (c == {e(0.5)}, c <= {e(0.5)}, c > {e(0.5)},
                                 c.isdisjoint([e(0.5)]), c.issubset([e(0.5)]),
                                 c.issuperset([e(0.5)]))
    yield 'reads', lambda c: reads(w, c)
    yield 'ss._reset(5)', lambda c: c._reset(5)


def dict_ops(w, n, ks):
    e, v = w.e, w.v
    for i in range(-n - 1, n + 1):
        yield 'sd.popitem(%d)' % i, lambda c, i=i: q(c.popitem, i)
        yield 'del sd.keys()[%d]' % i, lambda c, i=i: q(c.keys().__delitem__, i)
    yield 'sd.popitem()', lambda c: q(c.popitem)
    for k in ks:
        yield 'del sd[%r]' % k, lambda c, k=k: c.__delitem__(e(k))
        yield 'sd.pop(%r)' % k, lambda c, k=k: c.pop(e(k))
        yield 'sd.pop(%r, d)' % k, lambda c, k=k: c.pop(e(k), v())
        yield 'sd[%r] = v' % k, lambda c, k=k: c.__setitem__(e(k), v())
        yield 'sd.setdefault(%r, v)' % k, lambda c, k=k: c.setdefault(e(k), v())
        yield 'sd.update({%r: v})' % k, lambda c, k=k: c.update({e(k): v()})
        yield 'sd |= {%r: v}' % k, lambda c, k=k: c.__ior__({e(k): v()})
    yield 'del sd[absent]', lambda c: q(c.__delitem__, e(0.123))
    yield 'sd.pop(absent)', lambda c: q(c.pop, e(0.123))
    yield 'sd.pop(absent, d)', lambda c: c.pop(e(0.123), v())
    yield 'sd.get(absent, d)', lambda c: c.get(e(0.123), v())
    yield 'sd.setdefault(absent)', lambda c: c.setdefault(e(0.123), v())
    yield 'sd.clear()', lambda c: c.clear()
    for j, nm in enumerate(('keys', 'items', 'values')):
        for s in ((1, None), (None, -1), (0, n // 2), (None, None, 2), (None, None)):
            yield 'del sd.%s()[%r]' % (nm, s), lambda c, s=s, nm=nm: (
                getattr(c, nm)().__delitem__(slice(*s)))
    yield 'sd.update(many)', lambda c: c.update(
        [(e(30.0 + i), v()) for i in range(2 * n + 3)] + [(e(30.0), v())])
    allk = list(ks)
    yield 'sd.update(all)', lambda c: c.update([(e(k), v()) for k in allk])
    yield 'sd | other', lambda c: (c | {e(0.7): v()}, {e(0.7): v()} | c)
    yield 'sd.copy()', lambda c: (c.copy(), copy.copy(c))
    yield 'views', lambda c: [(list(x), len(x), x[:], list(reversed(x)),
                               repr(x)) for x in (c.keys(), c.items(), c.values())]
    yield 'view algebra', lambda c: (c.keys() & {e(0.7)}, c.keys() | {e(0.7)},
                                     c.keys() - {e(0.7)}, c.keys() ^ {e(0.7)},
                                     c.keys() == {e(0.7)})
    yield 'peekitem', lambda c: [c.peekitem(i) for i in range(len(c))]
    yield 'reads', lambda c: reads(w, c)
    yield 'sd._reset(5)', lambda c: c._reset(5)


OPS = {'list': list_ops, 'key': list_ops, 'set': set_ops, 'setkey': set_ops,
       'dict': dict_ops, 'dictkey': dict_ops}


def explore(what, path, ks, st, sub=False, fill=None, load=4, pick=None):
    """All operations from one state; then drop the container."""
    n = len(ks)
    probe = World(what, load, sub)
    names = [t for t, f in OPS[what](probe, n, ks)]
    del probe
    for j, text in enumerate(names):
        if pick is not None and not pick(j, text):
            continue
        w = World(what, load, sub)
        if fill is not None:
            w.fill(fill)
        w.replay(path)
        fn = next(itertools.islice((f for t, f in OPS[what](w, n, ks)), j, None))
        fn(w.c)
        del fn
        w.stale(text)
        # half of what is left goes, then possibly the rest
        half = slice(None, (len(w.c) + 1) // 2)
        if half.stop:
            (w.c.keys() if what.startswith('dict') else w.c).__delitem__(half)
            w.stale(text + '; the first half deleted')
        if j % 2:
            w.c.clear()
            w.stale(text + '; half deleted; cleared')
        w.dropped(text)
        st.add('transitions')
    # a second operation chained: pops down to empty
    w = World(what, load, sub)
    if fill is not None:
        w.fill(fill)
    w.replay(path)
    w.stale('the history')
    i = 0
    while len(w.c):
        i += 1
        j = (0, -1, len(w.c) // 2)[i % 3]
        if what.startswith('dict'):
            w.c.popitem(j)
        else:
            w.c.pop(j)
        if n < 60 or i % 97 == 0:
            w.stale('popping all')
        st.add('transitions')
    w.stale('popping all')
    w.dropped('popping all')
    # held companions, dropped with the container
    w = World(what, load, sub)
    if fill is not None:
        w.fill(fill)
    w.replay(path)
    c = w.c
    held = [iter(c), reversed(c), c.irange(), c.islice(1), c.copy(), c.bisect_left]
    for it in held[:4]:
        next(it, None)
    if what.startswith('dict'):
        held += [c.keys(), c.items(), c.values(), c.setdefault, iter(c.items()),
                 c.peekitem, c.index]
        next(held[-3], None)
        held[-4](w.e(0.5), w.v())
    elif what.startswith('set'):
        held += [c.add, c.union, c.isdisjoint, c | set()]
    else:
        held += [c.add, c.pop, c + [], c * 2]
    del c, it, held
    w.stale('iterators, views and methods taken and dropped')
    w.dropped('iterators, views and methods taken and dropped')
    st.add('transitions')


class Mix:
    def at(self, ex, i):
        self.path = ex.path(i)

    def on_state(self, b, m, st):
        gc.disable()
        k = self.kind
        if self.what in ('list', 'key'):
            ks = [k.code(v)[0] for v in m]
        else:
            ks = sorted(k.code(v)[0] for v in m)
        explore(self.what, self.path, ks, st)
        explore(self.what, self.path, ks, st, sub=True,
                pick=lambda j, t: t in ('x.clear()', 'ss.clear()', 'sd.clear()',
                                        'x.pop()', 'ss.pop()', 'sd.popitem()'))
        st.add('batteries')


class LSys(Mix, ListSys):
    what = 'list'

    def ops(self, x, m):
        for op in ListSys.ops(self, x, m):
            if op[0] in ('add', 'pop', 'touch'):
                yield op


class SSys(Mix, SetSys):
    what = 'set'


class DSys(Mix, DictSys):
    what = 'dict'


def runs_case(case, st):
    """Runs of equal elements: objects looked for are not kept; removing the elements of
    a run one by one, by value and by position."""
    gc.disable()
    what, reps, load, warm = case
    for how in ('reads', 'discard', 'remove', 'pop', 'count', 'index', 'bisect',
                'contains', 'update'):
        w = World(what, load)
        w.c.update([w.e(float(k)) for k, r in enumerate(reps) for _ in range(r)])
        c = w.c
        if warm and len(c):
            c[len(c) // 2]
        for k in (0.0, 1.0, 2.0, 0.5, 1.5):
            text = '%s of %r in %r' % (how, k, case)
            if how == 'reads':
                reads(w, c)
            elif how in ('discard', 'remove'):
                while c.count(w.e(k)):
                    getattr(c, how)(w.e(k))
                    w.stale(text)
                q(getattr(c, how), w.e(k))
            elif how == 'pop':
                while c.count(w.e(k)):
                    c.pop(c.bisect_right(w.e(k)) - 1)
                    w.stale(text)
            elif how == 'count':
                c.count(w.e(k))
            elif how == 'index':
                for a in ((), (1,), (len(c) // 2,), (0, -1), (len(c) // 3, len(c) - 1)):
                    q(c.index, w.e(k), *a)
            elif how == 'bisect':
                c.bisect_left(w.e(k)), c.bisect_right(w.e(k)), c.bisect(w.e(k))
            elif how == 'contains':
                w.e(k) in c
            else:
                c.update([w.e(k)])
                c.pop(c.bisect_right(w.e(k)) - 1)
            w.stale(text)
            st.add('transitions')
        del c
        w.dropped('%s in %r' % (how, case))
    st.add('states')


def larger(case, st):
    gc.disable()
    what, n, load, warm = case
    ks = [float(i) for i in range(n)]
    path = [('touch', n // 2)] if warm else []
    marks = {0, 1, n - 1, n // 2} | {q + d for q in range(0, n, load or 1000)
                                     for d in (-1, 0, 1)}
    names = {'%d' % i for i in marks} | {'%d' % (i - n) for i in marks}

    def pick(j, t):
        a = t.split('(')[-1].split('[')[-1].split(':')[0]
        a = a.strip('])} =v,d')
        try:
            f = float(a)
        except ValueError:
            return True
        return '%d' % f in names and (n < 500 or int(f) in (0, 1, n // 2, n - 1, 999, 1000))
    explore(what, path, ks, st, fill=n, load=load, pick=pick)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    for name, cls, kind, n in (
            ('list', LSys, 'list', 24 if deep else 18),
            ('key', LSys, 'key', 20 if deep else 15),
            ('set', SSys, 'num', 22 if deep else 15),
            ('setkey', SSys, 'key', 18 if deep else 12),
            ('dict', DSys, 'num', 22 if deep else 15),
            ('dictkey', DSys, 'key', 18 if deep else 12)):
        sy = cls(kind, 4, n)
        sy.what = name
        cov.bfs(name, sy)
    sy = LSys('list', 4, 13 if deep else 9, distinct=False, kmax=3)
    cov.bfs('list-ties', sy)
    sy = LSys('key', 4, 13 if deep else 9, distinct=False, kmax=3)
    sy.what = 'key'
    cov.bfs('key-ties', sy)
    ls = (0, 1, 2, 5, 9, 13) if not deep else (0, 1, 2, 4, 5, 8, 9, 13, 30)
    cov.cases('runs', 'runs of equal elements', [
        (w, (a, b, c), load, warm) for w in ('list', 'key') for a in ls for b in ls
        for c in ls for load in (4, None) for warm in (False, True)], runs_case)
    cov.cases('larger', 'more segments and the default load factor',
              [(w, n, load, warm) for w in OPS for n, load in (
                  (30, 4), (41, 5)) + (((2100, None), (70, 4)) if deep else ())
               for warm in (False, True) if n < 500 or not warm], larger, timeout=300)
    return cov.result(['CPython reference counting; the deprecated sd.iloc is not used'])
