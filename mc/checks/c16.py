"""C16 A refused operation raises the documented error and changes nothing."""
from ..core import Cov, SortedDict, SortedList, SortedSet, Violation, clone, digest
from ..dicts import DictSys, check_dict, probe_keys, q_mapping
from ..dicts import q_check as d_check
from ..lists import (BIG, ListSys, check_contents, fmt, outcome, probe_values, q_light,
                     q_struct)
from ..sets import SetSys, check_set, probe_members, q_setside
from ..sets import q_check as s_check


NOVALUE = object()


class Refuse:
    """Runs refused calls on one container.  After each: the documented exception
    class, the same contents, and either the identical internal state or the same
    answers and the same later behaviour."""

    def __init__(self, x, contents, battery, later, st):
        self.x = x
        self.contents = contents
        self.battery = battery
        self.later = later
        self.known = {digest(x)}
        self.st = st

    def __call__(self, text, exc, fn):
        x = self.x
        o = outcome(fn)
        if exc is None:
            if o[0] == 'err':
                raise Violation(text, 'no exception', fmt(o))
        elif o[0] != 'err' or not issubclass(o[1], exc):
            raise Violation(text, 'raises %s' % (
                getattr(exc, '__name__', exc),), fmt(o))
        try:
            self.contents(x)
            d = digest(x)
            if d not in self.known:
                self.battery(clone(x))
                self.later(clone(x))
                self.known.add(d)
        except Violation as v:
            v.info['what'] = 'after refused %s: %s' % (text, v.info['what'])
            raise
        self.st.kind(text.split('(')[0].split('[')[0] + ':' +
                     (exc.__name__ if exc and not isinstance(exc, tuple) else 'none'))


def absent_index(rf, nm, x, v, n):
    """index of a value that is not there, with every kind of start and stop."""
    rf('%s.index(%r)' % (nm, v), ValueError, lambda: x.index(v))
    for a, b in ((0, n), (0, n // 2), (n // 2, n), (n // 3, n - 1), (-n, -1), (n, 0),
                 (0, 0), (n + 3, n + 9), (-n - 5, n + 5), (1, None), (-1, None)):
        rf('%s.index(%r, %r, %r)' % (nm, v, a, b), ValueError, lambda: x.index(v, a, b))


def outside(pos, n):
    """Index ranges that end just before the first position of a value or start just
    after its last, with every kind of start and stop."""
    p, q = pos[0], pos[-1] + 1
    for a in {0, 1, p // 2, p - 3, p - 2, p - 1, p, -n, p - n - 1}:
        if (a if a >= 0 else max(a + n, 0)) <= p:
            yield a, p
            if p:
                yield a, p - n
                yield a, p - 1
    if q < n:
        for b in (None, n, n + 5, n - 1, q, q + 1):
            yield q, b
            yield q - n, b
    yield q, p
    yield q, 0
    if len(pos) > 1 and q - p == len(pos):
        yield q - 1, p
        yield p, p


def list_refusals(x, m, kind, rf):
    n = len(m)
    present = set(m)
    z = kind.elem(0.5)
    for v in probe_values(m, kind):
        if v in present:
            pos = [i for i, w in enumerate(m) if w == v]
            rf('x.index(%r, %d)' % (v, pos[-1] + 1), ValueError,
               lambda: x.index(v, pos[-1] + 1))
            for a, b in outside(pos, n):
                rf('x.index(%r, %r, %r)' % (v, a, b), ValueError,
                   lambda: x.index(v, a, b))
            continue
        rf('x.remove(%r)' % (v,), ValueError, lambda: x.remove(v))
        absent_index(rf, 'x', x, v, n)
        rf('x.discard(%r)' % (v,), None, lambda: x.discard(v))
    for i in (n, n + 1, -n - 1, -n - 2, BIG, -BIG):
        rf('x[%d]' % i, IndexError, lambda: x[i])
        rf('x.pop(%d)' % i, IndexError, lambda: x.pop(i))
        rf('x.__delitem__(%d)' % i, IndexError, lambda: x.__delitem__(i))
    if not n:
        rf('x.pop()', IndexError, lambda: x.pop())
        rf('x.pop(0)', IndexError, lambda: x.pop(0))
    NI = NotImplementedError
    rf('x.append(v)', NI, lambda: x.append(z))
    rf('x.append(big)', NI, lambda: x.append(kind.elem(99.0)))
    rf('x.extend([v])', NI, lambda: x.extend([z]))
    rf('x.extend([])', NI, lambda: x.extend([]))
    rf('x.extend(iter)', NI, lambda: x.extend(iter([z])))
    rf('x.extend(x)', NI, lambda: x.extend(x))
    for i in (0, n, -1, n // 2):
        rf('x.insert(%d, v)' % i, NI, lambda: x.insert(i, z))
        rf('x[%d] = v' % i, NI, lambda: x.__setitem__(i, z))
    rf('x[:] = [v]', NI, lambda: x.__setitem__(slice(None), [z]))
    rf('x[0:1] = []', NI, lambda: x.__setitem__(slice(0, 1), []))
    rf('x.reverse()', NI, lambda: x.reverse())
    for s in (slice(None, None, 0), slice(1, 2, 0)):
        rf('x[%r]' % (s,), ValueError, lambda: x[s])
        rf('x.__delitem__(%r)' % (s,), ValueError, lambda: x.__delitem__(s))
    if n:
        # not a documented class: any exception, but nothing may change
        for i in ('a', None, 0.5, 1.5, n + 0.5, -1.5, [0], slice('a', None)):
            rf('x[%r]' % (i,), Exception, lambda: x[i])
            if isinstance(i, float):
                continue    # nothing is documented about deleting at a fraction
            rf('x.pop(%r)' % (i,), Exception, lambda: x.pop(i))
            rf('x.__delitem__(%r)' % (i,), Exception, lambda: x.__delitem__(i))
    for o in (5, None):
        rf('x + %r' % o, TypeError, lambda: x + o)
        rf('x += %r' % o, TypeError, lambda: x.__iadd__(o))
        rf('x.update(%r)' % o, TypeError, lambda: x.update(o))
        rf('x < %r' % o, TypeError, lambda: x < o)
    for o in (None, 1.5, 'a'):
        rf('x * %r' % o, TypeError, lambda: x * o)
        rf('x *= %r' % o, TypeError, lambda: x.__imul__(o))


class LSys(ListSys):
    def on_state(self, x, m, st):
        y = clone(x)
        kind = self.kind

        def later(y):
            for op in self.ops(y, m):
                if op[0] not in self.LEAVES:
                    self.step(clone(y), m, op)
        rf = Refuse(y, lambda z: check_contents(z, m),
                    lambda z: (q_light(z, m, kind), q_struct(z, m, kind)), later, st)
        list_refusals(y, m, kind, rf)
        st.add('batteries')


class DSys(DictSys):
    def on_state(self, b, m, st):
        b = clone(b)
        kind = self.kind
        sd = b.sd
        items = [(k, id(v)) for k, v in sd.items()]

        def contents(_):
            if [(k, id(v)) for k, v in sd.items()] != items or len(sd) != len(items):
                raise Violation('items changed', items, list(sd.items()))
            check_dict(sd, m, kind)

        def later(y):
            for op in self.ops(y, m):
                self.step(clone(y), m, op)
        rf = Refuse(b, contents,
                    lambda z: (q_mapping(z, m, kind), d_check(z, m, kind)), later, st)
        n = len(m)
        for k in probe_keys(m, kind):
            if k in m:
                continue
            rf('sd[%r]' % (k,), KeyError, lambda: sd[k])
            rf('del sd[%r]' % (k,), KeyError, lambda: sd.__delitem__(k))
            rf('sd.pop(%r)' % (k,), KeyError, lambda: sd.pop(k))
            rf('sd.pop(%r, 0)' % (k,), None, lambda: sd.pop(k, 0))
            rf('sd.get(%r)' % (k,), None, lambda: sd.get(k))
            absent_index(rf, 'sd', sd, k, n)
            absent_index(rf, 'sd.keys()', sd.keys(), k, n)
            rf('sd.items().index', ValueError, lambda: sd.items().index((k, 0)))
            rf('sd.values().index', ValueError, lambda: sd.values().index(NOVALUE))
        for i in (n, n + 1, -n - 1, -n - 2, BIG, -BIG):
            if n:
                rf('sd.popitem(%d)' % i, IndexError, lambda: sd.popitem(i))
            rf('sd.peekitem(%d)' % i, IndexError, lambda: sd.peekitem(i))
            for v in b.views:
                nm = type(v).__name__
                rf('%s[%d]' % (nm, i), IndexError, lambda: v[i])
                rf('%s.__delitem__(%d)' % (nm, i), IndexError, lambda: v.__delitem__(i))
        if not n:
            rf('sd.popitem()', KeyError, lambda: sd.popitem())
            rf('sd.popitem(0)', KeyError, lambda: sd.popitem(0))
            rf('sd.peekitem()', IndexError, lambda: sd.peekitem())
        for bad in (5, None):
            rf('sd | %r' % bad, TypeError, lambda: sd | bad)
            rf('sd < %r' % bad, TypeError, lambda: sd < bad)
        rf('sd |= 5', TypeError, lambda: sd.__ior__(5))
        rf('sd.update(5)', TypeError, lambda: sd.update(5))
        rf('sd.update({}, {})', TypeError, lambda: sd.update({}, {}))
        for v in b.views:
            nm = type(v).__name__
            for s in (slice(None, None, 0),):
                rf('%s[%r]' % (nm, s), ValueError, lambda: v[s])
                rf('%s.__delitem__(%r)' % (nm, s), ValueError,
                   lambda: v.__delitem__(s))
            if n:
                for i in ('a', None):
                    rf('%s[%r]' % (nm, i), Exception, lambda: v[i])
                    rf('%s.__delitem__(%r)' % (nm, i), Exception,
                       lambda: v.__delitem__(i))
            rf('%s[0] = 1' % nm, Exception, lambda: v.__setitem__(0, 1))
        rf('sd.__setitem__([])', TypeError, lambda: sd.__setitem__([], 1))
        rf('sd.__delitem__([])', TypeError, lambda: sd.__delitem__([]))
        rf('sd.pop([])', TypeError, lambda: sd.pop([]))
        rf('sd.setdefault([])', TypeError, lambda: sd.setdefault([]))
        st.add('batteries')


class SSys(SetSys):
    def on_state(self, b, m, st):
        b = clone(b)
        kind = self.kind
        ss = b.ss
        before = list(ss)

        def contents(_):
            if list(ss) != before or len(ss) != len(before):
                raise Violation('contents changed', before, list(ss))
            check_set(ss, m, kind)

        def later(y):
            for op in self.ops(y, m):
                self.step(clone(y), m, op)
        rf = Refuse(b, contents,
                    lambda z: (q_setside(z, m, kind), s_check(z, m, kind)), later, st)
        n = len(m)
        for v in probe_members(m, kind):
            if v in m:
                i = before.index(v)
                rf('ss.index(%r, %d)' % (v, i + 1), ValueError,
                   lambda: ss.index(v, i + 1))
                continue
            rf('ss.remove(%r)' % (v,), KeyError, lambda: ss.remove(v))
            absent_index(rf, 'ss', ss, v, n)
            rf('ss.discard(%r)' % (v,), None, lambda: ss.discard(v))
        for i in (n, n + 1, -n - 1, -n - 2, BIG, -BIG):
            rf('ss[%d]' % i, IndexError, lambda: ss[i])
            rf('ss.pop(%d)' % i, IndexError, lambda: ss.pop(i))
            rf('ss.__delitem__(%d)' % i, IndexError, lambda: ss.__delitem__(i))
        if not n:
            rf('ss.pop()', IndexError, lambda: ss.pop())
        for s in (slice(None, None, 0),):
            rf('ss[%r]' % (s,), ValueError, lambda: ss[s])
            rf('ss.__delitem__(%r)' % (s,), ValueError, lambda: ss.__delitem__(s))
        if n:
            for i in ('a', None):
                rf('ss[%r]' % (i,), Exception, lambda: ss[i])
                rf('ss.pop(%r)' % (i,), Exception, lambda: ss.pop(i))
                rf('ss.__delitem__(%r)' % (i,), Exception, lambda: ss.__delitem__(i))
        rf('ss[0] = v', Exception, lambda: ss.__setitem__(0, kind.elem(1.0)))
        for nm in ('append', 'extend', 'insert', 'reverse'):
            rf('ss.%s' % nm, Exception, lambda: getattr(ss, nm)(kind.elem(1.0)))
        for o in (5, None):
            for nm in ('__or__', '__and__', '__sub__', '__xor__', '__ior__', '__iand__',
                       '__isub__', '__ixor__', 'union', 'intersection', 'difference',
                       'symmetric_difference', 'update', 'intersection_update',
                       'difference_update', 'symmetric_difference_update',
                       'issubset', 'issuperset', 'isdisjoint'):
                rf('ss.%s(%r)' % (nm, o), TypeError, lambda: raise_ni(ss, nm, o))
            rf('ss < %r' % (o,), TypeError, lambda: ss < o)
        for nm in ('add', 'remove', 'discard', '__contains__', 'count'):
            rf('ss.%s([])' % nm, TypeError, lambda: getattr(ss, nm)([]))
        st.add('batteries')


def raise_ni(ss, nm, o):
    """Operators may answer NotImplemented, which Python turns into TypeError."""
    if getattr(ss, nm)(o) is NotImplemented:
        raise TypeError


def big_case(case, st):
    """The same refusals on larger containers (many segments, default load)."""
    what, n, load, warm = case
    vals = [float(2 * i) for i in range(n)]
    if what == 'list':
        x = SortedList(vals)
    elif what == 'key':
        x = SortedList(vals, key=lambda v: -v)
    elif what == 'set':
        x = SortedSet(vals)
    else:
        x = SortedDict((v, v) for v in vals)
    if load:
        x._reset(load)
    view = x.keys() if what == 'dict' else x
    before = list(view)
    if warm:
        view[n // 2]

    def refuse(text, exc, fn):
        o = outcome(fn)
        if o[0] != 'err' or not issubclass(o[1], exc):
            raise Violation('%s %r' % (text, case), exc.__name__, fmt(o))
        if list(view) != before or len(view) != n:
            raise Violation('%s %r changed the container' % (text, case), before,
                            list(view))
        st.add('transitions')
    absent = KeyError if what in ('set', 'dict') else ValueError
    stride = 1 if n < 300 else 71
    for i in list(range(0, n, stride)) + [n - 1]:
        v = before[i] + 1
        if what == 'dict':
            refuse('pop', absent, lambda: x.pop(v))
            refuse('del', absent, lambda: x.__delitem__(v))
        else:
            refuse('remove', absent, lambda: x.remove(v))
        refuse('index', ValueError, lambda: x.index(v))
        for w in (v, before[0] - 1, before[0] + 1, before[-1] - 1, before[-1] + 1):
            for a, b in ((0, i), (i, n), (0, n), (i + 1, n - 1), (n // 2, -1), (0, 1)):
                if w not in before:
                    refuse('index %r %r' % (a, b), ValueError, lambda: x.index(w, a, b))
        refuse('index stop', ValueError, lambda: view.index(before[i], 0, i))
        refuse('index start', ValueError, lambda: view.index(before[i], i + 1))
        for a, b in outside([i], n):
            refuse('index(%r, %r, %r)' % (before[i], a, b), ValueError,
                   lambda: view.index(before[i], a, b))
    for i in (n, n + 1, -n - 1, 2 * n, BIG, -BIG, -2 * n):
        refuse('[i]', IndexError, lambda: view[i])
        refuse('del [i]', IndexError, lambda: view.__delitem__(i))
        refuse('pop', IndexError,
               lambda: x.popitem(i) if what == 'dict' else x.pop(i))
    if what in ('list', 'key'):
        for f in (lambda: x.append(1e9), lambda: x.extend([1e9]),
                  lambda: x.insert(n, 1e9), lambda: x.reverse(),
                  lambda: x.__setitem__(0, 0.0), lambda: x.__setitem__(slice(3), [])):
            refuse('list method', NotImplementedError, f)
    for i in range(0, n, stride):
        if view[i] != before[i] or x.bisect_left(before[i]) != i:
            raise Violation('after the refusals %r [%d]' % (case, i), before[i], view[i])
    x._check()


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    cov.bfs('list', LSys('list', 4, 20 if deep else 16))
    cov.bfs('list-full', LSys('list', 4, 9 if deep else 7, opset='full'))
    cov.bfs('list-ties', LSys('list', 4, 12 if deep else 9, distinct=False, kmax=3))
    cov.bfs('key', LSys('key', 4, 16 if deep else 12))
    cov.bfs('key-ties', LSys('key', 4, 7 if deep else 5, distinct=False, kmax=2, emax=2))
    cov.bfs('dict', DSys('num', 4, 14 if deep else 11, 'full'))
    cov.bfs('dict-key', DSys('key', 4, 11 if deep else 9, 'full'))
    cov.bfs('set', SSys('num', 4, 13 if deep else 10, 'full'))
    cov.bfs('set-key', SSys('key', 4, 11 if deep else 9, 'full'))
    cov.cases('larger', 'larger containers and the default load factor',
              [(w, n, load, warm) for w in ('list', 'key', 'set', 'dict')
               for n, load in ((9, 4), (30, 4), (70, 5), (150, 4), (1000, None),
                               (2100, None)) for warm in (False, True)], big_case)
    return cov.result(['operations with an argument of an unsuitable type: any exception '
                       'is accepted, but nothing may change'])
