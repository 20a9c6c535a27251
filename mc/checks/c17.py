"""C17 Bad input data never corrupts or partly changes a container.

Fault enumeration: in every reachable state, every inserting (and looking-up) call is
run with one faulty value -- unorderable against everything, or against exactly one
chosen stored or incoming value; unhashable; making the key function raise; a malformed
pair -- at every position of its input, and with the input iterable raising at every
position."""
import operator
import re

from ..core import (Cov, SortedDict, SortedKeyList, SortedList, SortedSet, Violation,
                    clone, digest)
from ..dicts import AMapping, DictSys, check_dict, q_mapping
from ..dicts import q_check as d_check
from ..lists import (KINDS, ListSys, check_contents, fmt, negreal, outcome, q_light,
                     q_struct, same)
from ..sets import SetSys, check_set, q_setside
from ..sets import q_check as s_check


class Boom(Exception):
    """The error of the bad input; how many were raised so far."""
    raised = 0

    def __init__(self, *a):
        Exception.__init__(self, *a)
        Boom.raised += 1


class BoomT(Boom, TypeError):
    """The same as a TypeError, as incomparable values usually give."""


class Bad:
    """Compares like the number v, except that comparing it with one of its enemies
    (or, with enemies None, with anything) raises.  Always the same way."""
    __slots__ = ('v', 'foe')

    def __init__(self, v, foe=None):
        self.v = v
        self.foe = foe

    def _o(self, o):
        w = o.v if isinstance(o, Bad) else o
        if o is not self and (self.foe is None or w == self.foe or
                              isinstance(o, Bad) and o.foe is None):
            raise (BoomT if self.foe is None else Boom)(
                'cannot order %r and %r' % (self, o))
        return w

    def __lt__(self, o):
        return self.v < self._o(o)

    def __gt__(self, o):
        return self.v > self._o(o)

    def __le__(self, o):
        return self.v <= self._o(o)

    def __ge__(self, o):
        return self.v >= self._o(o)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 77

    def __neg__(self):
        return Bad(-self.v, None if self.foe is None else -self.foe)

    def __repr__(self):
        return 'Bad(%r, foe=%r)' % (self.v, self.foe)


class KBad:
    """A value of a keyed container whose key (negreal) is a Bad."""
    __slots__ = ('real',)

    def __init__(self, v, foe=None):
        self.real = Bad(v, foe)

    def __repr__(self):
        return 'KBad(%r)' % (self.real,)


def bad_elem(kind, v, foe=None):
    return KBad(v, foe) if kind.keyed else Bad(v, foe)


class Fault:
    """One container in one state; runs faulty calls on it."""

    def __init__(self, x, contents, battery, later, st):
        self.orig = x
        self.x = clone(x)
        self.contents = contents
        self.battery = battery
        self.later = later
        self.d = digest(x)
        self.st = st

    def __call__(self, text, exc, fn):
        """fn(x) must raise exc (or succeed, when the fault is never met), and when it
        raises x must be as before."""
        x = self.x
        r = Boom.raised
        try:
            fn(x)
        except Exception as e:
            if not isinstance(e, exc):
                raise Violation(text + ': another exception than that of the bad input',
                                exc, repr(e))
            try:
                self.contents(x)
                d = digest(x)
                if d != self.d:
                    # e.g. an index was (re)built: must be unobservable
                    self.battery(clone(x))
                    self.later(x)
                    self.x = clone(self.orig)
                    self.st.add('rebuilt')
            except Violation as v:
                v.info['what'] = 'after failed %s: %s' % (text, v.info['what'])
                raise
            self.st.add('faults')
            self.st.kind(re.split(r'[(\[{]| raising', text)[0].strip())
        else:
            if Boom.raised != r:
                raise Violation(text + ': the error does not propagate', exc,
                                'no exception')
            self.x = clone(self.orig)
            self.st.add('fault_not_met')
        self.st.add('transitions')


def gen_raising(vals, at):
    for i, v in enumerate(vals):
        if i == at:
            raise Boom('iterator')
        yield v
    if at >= len(vals):
        raise Boom('iterator')


def gap_codes(ks):
    if not ks:
        return [0.0]
    return [ks[0] - 1.0] + [(a + b) / 2 for a, b in zip(ks, ks[1:])] + [ks[-1] + 1.0]


def batches(kind, ks, n):
    """Good values around which one fault is placed; the sizes straddle the ratio of
    a quarter at which bulk insertion changes strategy."""
    g = gap_codes(ks)
    lo, hi, mid = g[0], g[-1], g[len(g) // 2]
    out = [[], [mid], [hi, lo], [lo, mid, hi]]
    if ks:
        out.append([ks[0], ks[-1]])
        out.append([hi, ks[len(ks) // 2], lo, hi + 1.0])
    out.append([hi + i for i in range(7)])
    return [[kind.elem(c) for c in b] for b in out]


TYPEFAULTS = {'list': ('str', 'none', 'complex'), 'key': ('str', 'none')}


def type_fault(name):
    return {'str': 'text', 'none': None, 'complex': 1j}[name]


class LSys(ListSys):
    rich = True

    def on_state(self, x, m, st):
        kind = self.kind
        n = len(m)

        def later(y):
            for op in self.ops(y, m):
                if op[0] not in self.LEAVES:
                    self.step(clone(y), m, op)
        F = Fault(x, lambda z: check_contents(z, m),
                  lambda z: (q_light(z, m, kind), q_struct(z, m, kind)), later, st)
        ks = sorted({kind.code(v)[0] for v in m})
        gaps = gap_codes(ks)
        pts = gaps + ks
        foes = [None] + ks
        # single-value calls, every position, every enemy
        for v in pts:
            for foe in foes:
                b = bad_elem(kind, v, foe)
                for nm in ('add', 'remove', 'discard', '__contains__', 'index', 'count',
                           'bisect_left', 'bisect_right', 'bisect'):
                    F('%s(%r)' % (nm, b), (Boom,) if nm not in ('remove', 'index')
                      else (Boom, ValueError), lambda z: getattr(z, nm)(b))
                F('irange(%r)' % b, Boom, lambda z: list(z.irange(b)))
                F('irange(None, %r)' % b, Boom, lambda z: list(z.irange(None, b)))
                F('update([%r])' % b, Boom, lambda z: z.update([b]))
                if kind.keyed:
                    kb = Bad(-v, None if foe is None else -foe)
                    for nm in ('bisect_key_left', 'bisect_key_right', 'bisect_key'):
                        F('%s(%r)' % (nm, kb), Boom, lambda z: getattr(z, nm)(kb))
                    F('irange_key(%r)' % kb, Boom, lambda z: list(z.irange_key(kb)))
        for t in TYPEFAULTS['key' if kind.keyed else 'list']:
            w = type_fault(t)
            E = (TypeError, AttributeError)
            for nm in ('add', 'remove', 'discard', '__contains__', 'index', 'count',
                       'bisect_left', 'bisect_right'):
                F('%s(%r)' % (nm, w), E + ((ValueError,) if nm in ('remove', 'index')
                                           else ()), lambda z: getattr(z, nm)(w))
            F('update([%r])' % (w,), E, lambda z: z.update([w]))
            F('x += [%r]' % (w,), E, lambda z: z.__iadd__([w]))
        # bulk calls: the fault at every position of every batch
        for good in batches(kind, ks, n):
            for at in range(len(good) + 1):
                F('update(iterator raising at %d)' % at, Boom,
                  lambda z: z.update(gen_raising(good, at)))
                F('x += iterator raising at %d' % at, Boom,
                  lambda z: z.__iadd__(gen_raising(good, at)))
                F('x + iterator raising at %d' % at, Boom,
                  lambda z: z + gen_raising(good, at))
                for t in TYPEFAULTS['key' if kind.keyed else 'list']:
                    w = type_fault(t)
                    vals = good[:at] + [w] + good[at:]
                    F('update(%r)' % (vals,), (TypeError, AttributeError),
                      lambda z: z.update(vals))
                    F('x + %r' % (vals,), (TypeError, AttributeError),
                      lambda z: z + vals)
                vs = pts if len(good) < 3 else [pts[0], pts[-1], pts[len(pts) // 2]]
                for v in vs:
                    for foe in foes + ([kind.code(w)[0] for w in good[:1]]):
                        b = bad_elem(kind, v, foe)
                        vals = good[:at] + [b] + good[at:]
                        F('update(%r)' % (vals,), Boom, lambda z: z.update(vals))
                        if at == 0 and foe is None or self.rich and len(good) < 2:
                            F('x += %r' % (vals,), Boom, lambda z: z.__iadd__(vals))
                            F('x + %r' % (vals,), Boom, lambda z: z + vals)
                            F('%r + x' % (vals,), Boom, lambda z: vals + z)
        for bad in (5, None):
            F('update(%r)' % bad, TypeError, lambda z: z.update(bad))
            F('x += %r' % bad, TypeError, lambda z: z.__iadd__(bad))
            F('x + %r' % bad, TypeError, lambda z: z + bad)
            F('%r + x' % bad, TypeError, lambda z: bad + z)
        for bad in (1.5, None, 'a', [2], 2j):
            F('x *= %r' % (bad,), TypeError, lambda z: operator.imul(z, bad))
            F('x * %r' % (bad,), TypeError, lambda z: z * bad)
            F('%r * x' % (bad,), TypeError, lambda z: bad * z)
        st.add('batteries')


class SSys(SetSys):
    def on_state(self, b, m, st):
        kind = self.kind
        before = list(b.ss)

        def contents(z):
            if not same(list(z.ss), before) or len(z.ss) != len(before):
                raise Violation('contents changed', before, list(z.ss))
            check_set(z.ss, m, kind)
            s_check(z, m, kind)

        def later(y):
            for op in self.ops(y, m):
                self.step(clone(y), m, op)
        F = Fault(b, contents, lambda z: q_setside(z, m, kind), later, st)
        ks = sorted({kind.code(v)[0] for v in m})
        gaps = gap_codes(ks)
        pts = gaps + ks
        foes = [None] + ks
        for v in pts:
            for foe in foes:
                w = bad_elem(kind, v, foe)
                F('add(%r)' % w, Boom, lambda z: z.ss.add(w))
                F('update([%r])' % w, Boom, lambda z: z.ss.update([w]))
                F('|= {%r}' % w, Boom, lambda z: z.ss.__ior__({w}))
                F('^= {%r}' % w, Boom, lambda z: z.ss.__ixor__({w}))
                F('union(%r)' % w, Boom, lambda z: z.ss.union([w]))
                F('index(%r)' % w, (Boom, ValueError), lambda z: z.ss.index(w))
                F('bisect(%r)' % w, Boom, lambda z: z.ss.bisect(w))
                F('irange(%r)' % w, Boom, lambda z: list(z.ss.irange(w)))
                F('remove(%r)' % w, (Boom, KeyError), lambda z: z.ss.remove(w))
                F('discard(%r)' % w, Boom, lambda z: z.ss.discard(w))
        E = (TypeError, AttributeError)
        for w in ([], 'text', None, {}, [[]]):
            for nm in ('add', 'remove', 'discard', '__contains__', 'count', 'index',
                       'bisect_left'):
                F('%s(%r)' % (nm, w), E + (
                    (KeyError, ValueError) if nm in ('remove', 'index') else ()),
                    lambda z: getattr(z.ss, nm)(w))
        INS = ('update', 'symmetric_difference_update', 'union', 'symmetric_difference')
        for good in batches(kind, ks, len(m)):
            for at in range(len(good) + 1):
                for nm in INS + ('difference_update', 'intersection_update',
                                 'intersection', 'difference', 'issubset',
                                 'issuperset'):
                    F('%s(iterator raising at %d)' % (nm, at), Boom,
                      lambda z: getattr(z.ss, nm)(gen_raising(good, at)))
                    if nm in ('update', 'union', 'difference_update',
                              'intersection_update'):
                        F('%s(two iterables)' % nm, Boom,
                          lambda z: getattr(z.ss, nm)(
                              good + before[:1], gen_raising(good, at)))
                    for w in ([], {}):
                        vals = good[:at] + [w] + good[at:]
                        F('%s(%r)' % (nm, vals), TypeError,
                          lambda z: getattr(z.ss, nm)(vals))
                for w in ('text', None):
                    vals = good[:at] + [w] + good[at:]
                    for nm in INS:
                        F('%s(%r)' % (nm, vals), E, lambda z: getattr(z.ss, nm)(vals))
                vs = pts if len(good) < 3 else [pts[0], pts[-1], pts[len(pts) // 2]]
                for v in vs:
                    for foe in foes:
                        w = bad_elem(kind, v, foe)
                        vals = good[:at] + [w] + good[at:]
                        for nm in INS:
                            F('%s(%r)' % (nm, vals), Boom,
                              lambda z: getattr(z.ss, nm)(vals))
        for o in (5, None):
            for nm in INS + ('difference_update', 'intersection_update'):
                F('%s(%r)' % (nm, o), TypeError, lambda z: getattr(z.ss, nm)(o))
                if nm != 'symmetric_difference_update' and nm in (
                        'update', 'difference_update', 'intersection_update'):
                    F('%s(good, %r)' % (nm, o), TypeError,
                      lambda z: getattr(z.ss, nm)([kind.elem(3.25)], o))
        for o in (5, None, [1.0], (1.0,), 'ab', iter([])):
            for nm in ('ior', 'iand', 'isub', 'ixor', 'or_', 'and_', 'sub', 'xor'):
                # the operators take sets; whatever is not refused must not raise
                f = getattr(operator, nm)
                F('operator.%s(x, %r)' % (nm, o), E, lambda z: f(z.ss, o))
        st.add('batteries')


class DSys(DictSys):
    def on_state(self, b, m, st):
        kind = self.kind
        before = [(k, v) for k, v in b.sd.items()]

        def contents(z):
            got = list(z.sd.items())
            if len(got) != len(before) or len(z.sd) != len(before) or not all(
                    p is r and q is s for (p, q), (r, s) in zip(got, before)):
                raise Violation('items changed', before, got)
            check_dict(z.sd, m, kind)
            d_check(z, m, kind)

        def later(y):
            for op in self.ops(y, m):
                self.step(clone(y), m, op)
        F = Fault(b, contents, lambda z: q_mapping(z, m, kind), later, st)
        ks = sorted({kind.code(v)[0] for v in m})
        gaps = gap_codes(ks)
        pts = gaps + ks
        foes = [None] + ks
        for v in pts:
            for foe in foes:
                w = bad_elem(kind, v, foe)
                F('sd[%r] = 1' % w, Boom, lambda z: z.sd.__setitem__(w, 1))
                F('setdefault(%r)' % w, Boom, lambda z: z.sd.setdefault(w, 1))
                F('update({%r: 1})' % w, Boom, lambda z: z.sd.update({w: 1}))
                F('update([(%r, 1)])' % w, Boom, lambda z: z.sd.update([(w, 1)]))
                F('|= {%r: 1}' % w, Boom, lambda z: z.sd.__ior__({w: 1}))
                F('| {%r: 1}' % w, Boom, lambda z: z.sd | {w: 1})
                F('index(%r)' % w, (Boom, ValueError), lambda z: z.sd.index(w))
                F('bisect(%r)' % w, Boom, lambda z: z.sd.bisect(w))
                F('irange(%r)' % w, Boom, lambda z: list(z.sd.irange(w)))
                F('pop(%r)' % w, (Boom, KeyError), lambda z: z.sd.pop(w))
                F('del (%r)' % w, (Boom, KeyError), lambda z: z.sd.__delitem__(w))
        E = (TypeError, AttributeError)
        for w in ([], {}, 'text', None):
            F('sd[%r] = 1' % (w,), E, lambda z: z.sd.__setitem__(w, 1))
            F('setdefault(%r)' % (w,), E, lambda z: z.sd.setdefault(w))
            for nm in ('__getitem__', '__delitem__', 'pop', 'get', '__contains__',
                       'index'):
                F('%s(%r)' % (nm, w), E + (KeyError, ValueError),
                  lambda z: getattr(z.sd, nm)(w))
        have = list(m)
        for good in batches(kind, ks, len(m)):
            pairs = [(k, ('new', i)) for i, k in enumerate(good)]
            if have:
                # also replaces the value of a stored key
                pairs = [(have[0], 'changed')] + pairs
            for at in range(len(pairs) + 1):
                F('update(iterator raising at %d)' % at, Boom,
                  lambda z: z.sd.update(gen_raising(pairs, at)))
                F('|= iterator raising at %d' % at, Boom,
                  lambda z: z.sd.__ior__(gen_raising(pairs, at)))
                for w in (5, None, (1.0,), (1.0, 2, 3), 'x', [], ([], 1), ({}, 1)):
                    vals = pairs[:at] + [w] + pairs[at:]
                    F('update(%r)' % (vals,), (TypeError, ValueError),
                      lambda z: z.sd.update(vals))
                    F('|= %r' % (vals,), (TypeError, ValueError),
                      lambda z: z.sd.__ior__(vals))
                    F('update(%r, **kw)' % (vals,), (TypeError, ValueError),
                      lambda z: z.sd.update(vals, kw=1))
                for w in ('text', None):
                    vals = pairs[:at] + [(w, 1)] + pairs[at:]
                    F('update(%r)' % (vals,), E, lambda z: z.sd.update(vals))
                    F('update(dict(%r))' % (vals,), E,
                      lambda z: z.sd.update(dict(vals)))
                    F('update(mapping %r)' % (vals,), E,
                      lambda z: z.sd.update(AMapping(dict(vals))))
                if at == len(pairs):
                    F('update(%r, text=1)' % (pairs,), E,
                      lambda z: z.sd.update(pairs, text=1))
                vs = pts if len(good) < 3 else [pts[0], pts[-1], pts[len(pts) // 2]]
                for v in vs:
                    for foe in foes:
                        w = bad_elem(kind, v, foe)
                        vals = pairs[:at] + [(w, 1)] + pairs[at:]
                        F('update(%r)' % (vals,), Boom, lambda z: z.sd.update(vals))
                        F('|= dict(%r)' % (vals,), Boom,
                          lambda z: z.sd.__ior__(dict(vals)))
        for o in (5, None):
            F('update(%r)' % o, TypeError, lambda z: z.sd.update(o))
            F('|= %r' % o, TypeError, lambda z: z.sd.__ior__(o))
        st.add('batteries')


def big_case(case, st):
    """Larger containers: batches around a quarter of the size with one fault."""
    what, n, load, cnt, at, fault = case
    keyed = what.endswith('key')
    key = negreal if keyed else None
    vals = [float(2 * i) for i in range(n)]
    if what.startswith('list'):
        x = SortedList(vals, key=key)
    elif what.startswith('set'):
        x = SortedSet(vals, key=key)
    else:
        x = SortedDict(key, ((v, [v]) for v in vals))
    if load:
        x._reset(load)
    isd = what.startswith('dict')
    before = list(x.items()) if isd else list(x)
    good = [float((2 * i * n // max(cnt, 1)) % (2 * n) + 1) for i in range(cnt)]
    at = at * cnt // 4
    if fault == 'iter':
        arg = gen_raising([(g, 1) for g in good] if isd else good, at)
        exc = Boom
    else:
        w = {'str': 'text', 'first': bad_elem(KINDS['key' if keyed else 'list'], 0.5,
                                              vals[0]),
             'last': bad_elem(KINDS['key' if keyed else 'list'], 2.0 * n - 2.5,
                              vals[-1]),
             'all': bad_elem(KINDS['key' if keyed else 'list'], float(n), None)}[fault]
        exc = (TypeError, AttributeError) if fault == 'str' else Boom
        arg = good[:at] + [w] + good[at:]
        if isd:
            arg = [(g, 1) for g in arg]
    r = Boom.raised
    try:
        x.update(arg)
    except exc:
        st.add('faults')
    except Exception as e:
        raise Violation('%r' % (case,), exc, repr(e))
    else:
        if Boom.raised != r:
            raise Violation('the error does not propagate %r' % (case,), exc,
                            'no exception')
        st.add('fault_not_met')
        return
    got = list(x.items()) if isd else list(x)
    if got != before or len(x) != n:
        raise Violation('failed update changed the container %r' % (case,),
                        before, got)
    from ..core import Quiet
    with Quiet():
        o = outcome(x._check)
    if o[0] == 'err':
        raise Violation('_check after failed update %r' % (case,), 'passes', fmt(o))
    view = x.keys() if isd else x
    for i in range(0, n, max(1, n // 60)):
        e = before[i][0] if isd else before[i]
        if view[i] != e or x.bisect_left(e) != i:
            raise Violation('[%d] after failed update %r' % (i, case), e, view[i])
    if isd:
        x.update((g, 1) for g in good)
        want = {v: [v] for v in vals}
        want.update((g, 1) for g in good)
        ok = dict(x) == want and list(x) == sorted(want, key=key)
    elif what.startswith('set'):
        x.update(good)
        ok = list(x) == sorted(set(vals) | set(good), key=key)
    else:
        x.update(good)
        ok = list(x) == sorted(vals + good, key=key)
    if not ok:
        raise Violation('update after a failed update %r' % (case,))
    x._check()


def ctor_case(case, st):
    """A failing constructor call leaves its arguments alone; subclasses that re-run
    __init__ or fromkeys are not affected."""
    what, at, fault = case
    good = [3.0, 1.0, 2.0]
    bad = {'none': None, 'unhash': [], 'iter': None}[fault]
    if fault == 'iter':
        arg = lambda: gen_raising(good, at)
        exc = Boom
    else:
        vals = good[:at] + [bad] + good[at:]
        arg = lambda: vals
        exc = (TypeError, AttributeError)
    f = {'list': lambda: SortedList(arg()),
         'key': lambda: SortedKeyList(arg(), key=negreal),
         'set': lambda: SortedSet(arg()), 'setkey': lambda: SortedSet(arg(), key=negreal),
         'fromkeys': lambda: SortedDict.fromkeys(arg()),
         'dict': lambda: SortedDict((v, 1) for v in arg()),
         'dictkey': lambda: SortedDict(negreal, ((v, 1) for v in arg()))}[what]
    try:
        f()
    except exc:
        st.add('faults')
    except Exception as e:
        raise Violation('constructor %r' % (case,), exc, repr(e))
    else:
        raise Violation('constructor %r' % (case,), 'raises', 'no exception')


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    cov.bfs('list', LSys('list', 4, 15 if deep else 10))
    cov.bfs('list-ties', LSys('list', 4, 10 if deep else 7, distinct=False, kmax=3))
    cov.bfs('key', LSys('key', 4, 14 if deep else 9))
    cov.bfs('key-ties', LSys('key', 4, 6 if deep else 4, distinct=False, kmax=2, emax=2))
    cov.bfs('set', SSys('num', 4, 11 if deep else 8))
    cov.bfs('set-key', SSys('key', 4, 10 if deep else 7))
    cov.bfs('dict', DSys('num', 4, 11 if deep else 8))
    cov.bfs('dict-key', DSys('key', 4, 10 if deep else 7))
    cov.cases('larger', 'larger containers: one fault in batches around a quarter',
              [(w, n, load, c, at, f)
               for w in ('list', 'listkey', 'set', 'setkey', 'dict', 'dictkey')
               for n, load in ((17, 4), (40, 4), (90, 5), (160, 4), (1100, None),
                               (2300, None))
               for c in sorted({1, 2, n // 8, n // 4 - 1, n // 4, n // 4 + 1, n // 2,
                                2 * n})
               for at in range(5) for f in ('iter', 'str', 'first', 'last', 'all')],
              big_case)
    cov.cases('constructors', 'failing constructors',
              [(w, at, f) for w in ('list', 'key', 'set', 'setkey', 'fromkeys', 'dict',
                                    'dictkey') for at in range(4)
               for f in ('none', 'unhash', 'iter')], ctor_case)
    return cov.result(['one fault per call; a fault is a fixed function of the values '
                       'involved (the same comparison or key call always raises)',
                       'removal by a value that is equal to a stored one but whose key '
                       'raises is outside the property'])
