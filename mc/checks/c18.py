"""C18 Copies, pickles and reprs reproduce the container."""
import copy
import datetime
import operator
import pickle
from decimal import Decimal
from fractions import Fraction
from functools import partial
from itertools import product

from .. import domains, keys
from ..big import hist_cases, run_hist
from ..core import (Cov, Quiet, SortedDict, SortedKeyList, SortedList, SortedSet,
                    Violation, clone, digest)
from ..dicts import Bundle, DKind, DictSys, check_dict, q_mapping
from ..dicts import q_check as d_check
from ..keys import NEG
from ..lists import (Kind, ListSys, check_contents, fmt, outcome, q_light, q_struct)
from ..sets import SBundle, SetSys, check_set, q_setside
from ..sets import q_check as s_check

NS = {n: getattr(keys, n) for n in dir(keys)}
NS.update(SortedList=SortedList, SortedKeyList=SortedKeyList, SortedDict=SortedDict,
          SortedSet=SortedSet, inf=float('inf'))

MAKERS = [('x.copy()', lambda x: x.copy()), ('copy.copy(x)', copy.copy),
          ('copy.deepcopy(x)', copy.deepcopy),
          ('eval(repr(x))', lambda x: eval(repr(x), dict(NS)))]
MAKERS += [('pickle protocol %d' % p,
            lambda x, p=p: pickle.loads(pickle.dumps(x, p)))
           for p in range(pickle.HIGHEST_PROTOCOL + 1)]


class NKind(Kind):
    """Keyed by NEG: its repr evaluates and it pickles by name."""

    def __init__(self, name):
        super().__init__('list' if name == 'list' else 'key')
        if self.keyed:
            self.key = NEG


class NDKind(DKind):
    def __init__(self, name):
        super().__init__(name)
        if self.keyed:
            self.key = NEG


def common(text, x, y):
    if y is x:
        raise Violation('%s returns the container itself' % text)
    if type(y) is not type(x):
        raise Violation('%s: class' % text, type(x), type(y))
    if y.key is not x.key:
        raise Violation('%s: key function' % text, x.key, y.key)


def q_copies(x, m, kind, makers=MAKERS):
    d0 = digest(x)

    def intact(text):
        if digest(x) != d0:
            check_contents(x, m)
            q_light(clone(x), m, kind)
            q_struct(x, m, kind)
    for text, f in makers:
        o = outcome(f, x)
        if o[0] == 'err':
            raise Violation(text, 'a copy', fmt(o))
        y = o[1]
        common(text, x, y)
        got = list(y)
        if got != m or len(y) != len(m):
            raise Violation('%s: contents' % text, m, got)
        if repr(got) != repr(m):
            raise Violation('%s: contents' % text, repr(m), repr(got))
        if not (y == x and x == y):
            raise Violation('%s == x' % text, True, False)
        intact(text)
        q_light(y, got, kind)
        q_struct(y, got, kind)
        # mutate the copy in every way, then the original
        z = kind.elem(0.3)
        y.add(z)
        y.update([kind.elem(0.3), kind.elem(-9.0)])
        while len(y) > 3:
            y.pop(len(y) // 2)
        del y[:1]
        exp = sorted(list(y), key=kind.okey)
        q_struct(y, exp, kind)
        y.clear()
        intact(text + ', copy mutated')
        y.add(z)
        y = f(x)
        x2 = x
        if m:
            dy = digest(y)
            w = clone(x2)
            y2 = f(w)
            w.pop(len(m) // 2)
            w.add(kind.elem(77.0))
            w.update([kind.elem(78.0)] * (len(m) + 1))
            w.clear()
            got = list(y2)
            if repr(got) != repr(m):
                raise Violation('%s: changed by mutating the original' % text, m, got)
            q_light(y2, got, kind)
            q_struct(y2, got, kind)


class LSys(ListSys):
    def __init__(self, kind, *a, cls=None, **kw):
        super().__init__(kind, *a, **kw)
        self.kind = NKind(kind)
        self.cls = cls

    def build(self, n):
        k = self.kind
        vals = [k.elem(float(i * 2)) for i in range(n)]
        x = k.make(cls=self.cls)
        x._reset(self.load)
        x.update(vals)
        return x, sorted(vals, key=k.okey)


STEPS = {
    'add low': lambda c, v, k: c.add(k.elem(-5.0)), 'add high': lambda c, v, k: c.add(
        k.elem(500.0)), 'add mid': lambda c, v, k: c.add(k.elem(v[len(v) // 2].real + 0.25)
                                                         if v else k.elem(1.0)),
    'update': lambda c, v, k: c.update([k.elem(1.5)]),
    'pop(0)': lambda c, v, k: v and c.pop(0), 'pop()': lambda c, v, k: v and c.pop(),
    'pop(mid)': lambda c, v, k: v and c.pop(len(v) // 2),
    'remove': lambda c, v, k: v and c.remove(v[len(v) // 3]),
    'del [1:3]': lambda c, v, k: c.__delitem__(slice(1, 3)),
    'clear': lambda c, v, k: c.clear(), '_reset(5)': lambda c, v, k: c._reset(5)}
DSTEPS = {
    'add low': lambda c, v, k: c.__setitem__(k.elem(-5.0), 1),
    'add high': lambda c, v, k: c.__setitem__(k.elem(500.0), 1),
    'set': lambda c, v, k: v and c.__setitem__(v[0], 'other'),
    'setdefault': lambda c, v, k: c.setdefault(k.elem(1.5)),
    'update': lambda c, v, k: c.update({k.elem(1.5): 2}),
    'popitem(0)': lambda c, v, k: v and c.popitem(0),
    'popitem()': lambda c, v, k: v and c.popitem(),
    'popitem(mid)': lambda c, v, k: v and c.popitem(len(v) // 2),
    'pop': lambda c, v, k: v and c.pop(v[len(v) // 3]),
    'del keys()[1:3]': lambda c, v, k: c.keys().__delitem__(slice(1, 3)),
    'clear': lambda c, v, k: c.clear(), '_reset(5)': lambda c, v, k: c._reset(5)}
FEW = [t for t in MAKERS if 'protocol' not in t[0] or t[0][-1] in '05']


def answers(c):
    """What can be read off a container, position by position."""
    isd = isinstance(c, dict)
    v = c.keys() if isd else c
    n = len(c)
    return (n, list(c), [v[i] for i in range(n)], [v[i - n] for i in range(n)],
            [c.bisect_left(e) for e in list(c)], [e in c for e in list(c)],
            list(c.islice(0, n)), list(c.irange()), list(c.items()) if isd else None)


def apart(make, kind, steps):
    """One call on the copy or on the original, the positional index built before the
    copy, after it, or not at all: the other one answers as before."""
    for text, f in FEW:
        for warm in (0, 1, 2):
            for op, step in steps.items():
                for mutate_copy in (True, False):
                    x = make()
                    a0 = answers(x) if warm == 1 else None
                    y = f(x)
                    a0 = a0 or answers(clone(x))
                    if warm == 2:
                        answers(x)
                        answers(y)
                    b0 = answers(clone(y))
                    a, b = (y, x) if mutate_copy else (x, y)
                    step(a, list(a), kind)
                    want = a0 if mutate_copy else b0
                    got = answers(b)
                    if got != want:
                        raise Violation('%s, then %s on the %s: the other one' % (
                            text, op, 'copy' if mutate_copy else 'original'), want, got)
                    c = answers(a)
                    if c[1] != c[2] or c[1] != c[3] or c[1] != c[6]:
                        raise Violation('%s, then %s: its positions' % (text, op), c[1],
                                        c)


def apart_case(case, st):
    what, n, i = case
    kind = NKind('key' if 'key' in what else 'list')
    layout = ('bulk', 'up', 'spread')[i]
    vals = [kind.elem(float(2 * j)) for j in range(n)]
    order = vals if layout != 'spread' else [vals[j * 7 % n] for j in range(n)]

    def make():
        if 'list' in what:
            c = kind.make()
        elif 'set' in what:
            c = SortedSet(key=kind.key)
        else:
            c = SortedDict(kind.key)
        c._reset(4)
        if layout == 'bulk':
            c.update((v, 1) for v in vals) if 'dict' in what else c.update(vals)
        else:
            for v in order:
                c.__setitem__(v, 1) if 'dict' in what else c.add(v)
        return c
    apart(make, kind, DSTEPS if 'dict' in what else STEPS)
    st.add('transitions', 2 * 3 * len(FEW) * len(STEPS))
    st.kind(what)


def q_dcopies(b, m, kind):
    sd = b.sd
    items = list(sd.items())
    d0 = digest(b)

    def intact(text):
        if list(sd.items()) != items or len(sd) != len(items):
            raise Violation('%s changed the dict' % text, items, list(sd.items()))
        if digest(b) != d0:
            d_check(b, m, kind)
            q_mapping(clone(b), m, kind)
    for text, f in MAKERS:
        o = outcome(f, sd)
        if o[0] == 'err':
            raise Violation(text, 'a copy', fmt(o))
        y = o[1]
        common(text, sd, y)
        got = list(y.items())
        if repr(got) != repr(items) or len(y) != len(items):
            raise Violation('%s: items' % text, items, got)
        if dict(y) != m or not (y == sd and sd == y):
            raise Violation('%s == sd' % text, True, False)
        intact(text)
        mm = {k: v for k, v in got}
        q_mapping(Bundle(y), mm, kind)
        d_check(Bundle(y), mm, kind)
        k = kind.elem(1 if kind.name == 'str' else 0.3)
        y[k] = 'new'
        for q in list(y)[:2]:
            y[q] = 'changed'
        y.update({k: 'again'})
        if y[k] != 'again':
            raise Violation('%s: copy does not work' % text)
        while len(y) > 2:
            y.popitem(len(y) // 2)
        intact(text + ', copy mutated')
        y.clear()
        intact(text + ', copy cleared')
        w = clone(b).sd
        y = f(w)
        w[k] = 'x'
        for q in list(w):
            w[q] = 'changed'
        del w[k]
        w.clear()
        if repr(list(y.items())) != repr(items):
            raise Violation('%s: changed by mutating the original' % text, items,
                            list(y.items()))
        d_check(Bundle(y), mm, kind)


class DSys(DictSys):
    def __init__(self, kind, *a, **kw):
        super().__init__(kind, *a, **kw)
        self.kind = NDKind(kind)


def q_scopies(b, m, kind):
    ss = b.ss
    before = list(ss)
    d0 = digest(b)

    def intact(text):
        if list(ss) != before or len(ss) != len(before):
            raise Violation('%s changed the set' % text, before, list(ss))
        if digest(b) != d0:
            s_check(b, m, kind)
            q_setside(clone(b), m, kind)
    for text, f in MAKERS:
        o = outcome(f, ss)
        if o[0] == 'err':
            raise Violation(text, 'a copy', fmt(o))
        y = o[1]
        common(text, ss, y)
        check_set(y, m, kind, text)
        if not (y == ss and ss == y) or y != m:
            raise Violation('%s == ss' % text, True, False)
        intact(text)
        q_setside(SBundle(y, kind.keyed), m, kind)
        s_check(SBundle(y, kind.keyed), m, kind)
        y.add(kind.elem(0.3))
        y |= {kind.elem(-9.0)}
        y ^= {kind.elem(0.3), kind.elem(55.0)}
        while len(y) > 2:
            y.pop(len(y) // 2)
        s_check(SBundle(y, kind.keyed), m, kind)
        intact(text + ', copy mutated')
        y.clear()
        intact(text + ', copy cleared')
        w = clone(b).ss
        y = f(w)
        w.add(kind.elem(0.3))
        w -= set(before[:1])
        w |= {kind.elem(66.0)}
        w.clear()
        check_set(y, m, kind, text + ' after mutating the original')
        s_check(SBundle(y, kind.keyed), m, kind)


class SSys(SetSys):
    def __init__(self, kind, *a, **kw):
        super().__init__(kind, *a, **kw)
        self.kind = NDKind(kind)


def big_case(case, st):
    """Larger containers, all classes and makers; nested values are shared by copy and
    duplicated by deepcopy."""
    what, n, i = case
    text, f = MAKERS[i]
    vals = [float(3 * j % (2 * n + 1)) for j in range(n)]
    made = {'list': lambda: SortedList(vals), 'key': lambda: SortedKeyList(vals, NEG),
            'listkey': lambda: SortedList(vals, key=NEG),
            'sub': lambda: keys.SubList(vals), 'subkey': lambda: keys.SubKeyList(vals,
                                                                                 NEG),
            'load': lambda: keys.LoadList(vals),
            'loadkey': lambda: keys.LoadKeyList(vals, NEG),
            'set': lambda: SortedSet(vals), 'setkey': lambda: SortedSet(vals, NEG),
            'subset': lambda: keys.SubSet(vals, NEG),
            'dict': lambda: SortedDict((v, [v]) for v in vals),
            'dictkey': lambda: SortedDict(NEG, ((v, [v]) for v in vals)),
            'subdict': lambda: keys.SubDict(NEG, ((v, [v]) for v in vals))}[what]
    x = made()
    isd = isinstance(x, dict)
    view = x.keys() if isd else x
    if n > 5:
        view[n // 2]
        for v in list(view)[1:n:7]:
            if isd:
                del x[v]
            else:
                x.discard(v)
    before = list(x.items()) if isd else list(x)
    y = f(x)
    common(text, x, y)
    got = list(y.items()) if isd else list(y)
    if got != before or len(y) != len(before):
        raise Violation('%s %r' % (text, case), before, got)
    if getattr(type(x), 'DEFAULT_LOAD_FACTOR', None) != getattr(
            type(y), 'DEFAULT_LOAD_FACTOR', None):
        raise Violation('%s %r: load factor of the subclass' % (text, case))
    if isd and before:
        k = before[0][0]
        shared = y[k] is x[k]
        if shared != (text in ('x.copy()', 'copy.copy(x)')):
            raise Violation('%s %r: values shared' % (text, case), not shared, shared)
    yv = y.keys() if isd else y
    for j in range(0, len(before), max(1, len(before) // 80)):
        e = before[j][0] if isd else before[j]
        if yv[j] != e or yv[j - len(before)] != e or y.bisect_left(e) != y.index(e):
            raise Violation('%s %r [%d]' % (text, case, j), e, yv[j])
    with Quiet():
        y._check()
    while len(y) > len(before) // 2:
        y.popitem(len(y) // 3) if isd else y.pop(len(y) // 3)
    if (list(x.items()) if isd else list(x)) != before:
        raise Violation('%s %r: original changed' % (text, case))
    got = list(y)
    if isd:
        x.clear()
        x.update((float(j), 0) for j in range(5))
    else:
        x.clear()
        x.update(float(j) for j in range(5))
    if list(y) != got:
        raise Violation('%s %r: copy changed' % (text, case), got, list(y))
    y._check()
    x._check()


NS2 = dict(NS, datetime=datetime, Fraction=Fraction, Decimal=Decimal)
NAMED = {'str': (str.lower, len, repr), 'bytes': (bytes.lower, len),
         'tuple': (len, repr), 'int': (abs, operator.neg), 'mixed': (abs, operator.neg),
         'bool': (operator.not_,), 'list': (len, repr), 'date': (repr, hash),
         'delta': (abs, repr), 'frac': (abs, float), 'intsub': (operator.neg,),
         'none': (repr,), 'types': (repr,), 'pairs': (repr, domains.first),
         'complex': (abs, repr), 'sets': (len,), 'dicts': (len, repr)}


def domain_case(case, st):
    """Containers of strings, tuples, None, dates, ... keyed or not, copied in each way."""
    name, what, ki, i, n = case
    vals, _ = domains.vals_of(name)
    key = (None,) + NAMED.get(name, ())
    key = key[ki]
    if key is None and name in domains.KEYED:
        return
    text, f = MAKERS[i]
    if text.startswith('eval'):
        if key is not None or name in ('intsub', 'ci'):
            return
        f = lambda x: eval(repr(x), dict(NS2))
    if what in ('set', 'dict'):
        vals = [v for v in vals if outcome(hash, v)[0] == 'ok']
    if what == 'list':
        x = SortedList(vals * n, key=key)
    elif what == 'set':
        x = SortedSet(vals * n, key=key)
    else:
        x = SortedDict(key, ((v, [v, None]) for v in vals * n))
    if n > 1:
        x._reset(4)
    o = outcome(f, x)
    if o[0] == 'err':
        raise Violation('%r: %s' % (case, text), 'a copy', fmt(o))
    y = o[1]
    common(text, x, y)
    deep = 'copy(' not in text or 'deep' in text
    for p, q in ((list(x), list(y)),) + (
            ((list(x.values()), list(y.values())),) if what == 'dict' else ()):
        same_order = p == q if what == 'list' or key is None else (
            len(p) == len(q) and all(v in p for v in q) and (
                what == 'dict' or [key(v) for v in p] == [key(v) for v in q]))
        if not same_order:
            raise Violation('%r: %s: contents' % (case, text), p, q)
        if sorted(map(repr, p)) != sorted(map(repr, q)) and name != 'sets':
            raise Violation('%r: %s: contents' % (case, text), p, q)
        if not deep and sorted(map(id, p)) != sorted(map(id, q)):
            raise Violation('%r: %s: other objects' % (case, text), p, q)
    if x != y or len(x) != len(y) or any(v not in y for v in x):
        raise Violation('%r: %s == x' % (case, text), True, False)
    y._check()
    before = list(x)
    if before:
        v = vals[0]
        if what == 'dict':
            y.pop(v)
            y[v] = 'new'
            y.popitem(0)
        else:
            y.discard(v)
            y.add(v)
            y.pop(0)
        y._check()
    if list(x) != before:
        raise Violation('%r: %s: the original changed' % (case, text), before, list(x))
    st.kind(name)


def one(v):
    return 1


def recursive_case(case, st):
    """A container that holds itself (directly or inside another) has a finite repr that
    names every other element; repr works again afterwards."""
    what, n, at, deep = case
    key = one if 'key' in what else None
    if what == 'dict':
        x = SortedDict((float(i), i) for i in range(n))
        x[at + 0.5] = [x] if deep else x
        rest = ['%r: %r' % p for p in x.items() if p[0] != at + 0.5]
        here = '%r: ' % (at + 0.5)
    elif what == 'dictkey':
        x = SortedDict(one, ((float(i), i) for i in range(n)))
        x['self'] = (x, x) if deep else x
        rest = ['%r: %r' % p for p in list(x.items())[:-1]]
        here = "'self': "
    elif what == 'listkey':
        x = SortedKeyList(range(n), key=one)
        x.add([x, {1: x}] if deep else x)
        rest = ['%r' % i for i in range(n)]
        here = ''
    else:
        x = SortedSet(range(n), key=one)
        x.add(Holder(x))
        rest = ['%r' % i for i in range(n)]
        here = ''
    objs = [x] + ([x.keys(), x.items(), x.values()] if what.startswith('dict') else [])
    for o in objs:
        for time in (1, 2):
            r = outcome(repr, o)
            if r[0] == 'err' or '...' not in r[1]:
                raise Violation('repr of a %s holding itself (%r)' % (
                    type(o).__name__, case), 'with ... in it', fmt(r))
            if o is x and (not r[1].startswith(type(x).__name__ + '(') or here not in r[1]
                           or not all(t in r[1] for t in rest)):
                raise Violation('repr of a %s holding itself (%r)' % (
                    type(o).__name__, case), rest, r[1])
    # nothing stays marked as being printed
    y = type(x)()
    if '...' in repr(y):
        raise Violation('repr of another', repr(y), '...')
    if what == 'dict':
        x[at + 0.5] = 'z'
        if eval(repr(x), dict(NS)) != x:
            raise Violation('repr after the cycle is gone', None, repr(x))
    st.kind(what)


def subset_case(case, st):
    """Every set of numbers and strings up to a size: contents of every copy."""
    what, bits, kn, unit = case
    key = KEYS3[kn]
    vals = [unit(i) for i in range(12) if bits >> i & 1]
    if what == 'list':
        x = SortedList(vals, key=key)
    elif what == 'twice':
        x = SortedList(vals + vals[::2], key=key)
    elif what == 'set':
        x = SortedSet(vals, key=key)
    else:
        x = SortedDict(key, ((v, vals[-1 - i]) for i, v in enumerate(vals)))
    before = repr(x)
    rest = list(x.items()) if what == 'dict' else list(x)
    for text, f in MAKERS:
        y = f(x)
        common(text, x, y)
        got = list(y.items()) if what == 'dict' else list(y)
        if got != rest or repr(y) != before or len(y) != len(rest):
            raise Violation('%s of %s' % (text, before), rest, got)
        if y != x or not y == x:
            raise Violation('%s of %s is equal to it' % (text, before), True, False)
        for v in vals:
            if v not in y:
                raise Violation('%s of %s: %r in it' % (text, before, v), True, False)
        y._check()
        st.add('transitions')
    if repr(x) != before:
        raise Violation('the original changed', before, repr(x))


def word(i):
    return 'abcdefghijkl'[i] * (1 + i % 2)


def whole(i):
    return i


def apart3(i):
    return i * i * 3 + 1 if i > 2 else -i * 7


def halves(i):
    return i / 2 - 1


KEYS3 = {'none': None, 'neg': NEG}


def shared_case(case, st):
    """The same object stored several times among equal or equally ordered others: every
    copy has the same values in the same order, sharing as the copy protocol says."""
    name, seq, load = case
    a, b, c, key = SHARED[name]
    vals = [(a, b, c)[i] for i in seq]
    x = SortedList(vals, key=key) if name != 'sub' else keys.SubList(vals, key=key)
    if load:
        x._reset(load)
    before = list(x)
    for text, f in MAKERS:
        if text.startswith('eval') and key is not None and not isinstance(
                key, keys.KeyFn):
            continue
        y = f(x)
        common(text, x, y)
        got = list(y)
        st.add('transitions')
        if repr(got) != repr(before) or [type(v) for v in got] != [
                type(v) for v in before]:
            raise Violation('%s of %r' % (text, before), before, got)
        if text in ('x.copy()', 'copy.copy(x)'):
            if [id(v) for v in got] != [id(v) for v in before]:
                raise Violation('%s of %r: other objects' % (text, before), before, got)
        elif not text.startswith('eval') and name in ('lists', 'pairs'):
            # one object stays one object, two stay two
            p = [[u is v for u in before] for v in before]
            q = [[u is v for u in got] for v in got]
            if p != q:
                raise Violation('%s of %r: which are the same object' % (text, before),
                                p, q)
        y._check()
    if [id(v) for v in x] != [id(v) for v in before]:
        raise Violation('the original changed', before, list(x))
    st.kind(name)


def shared_values_case(case, st):
    """Dicts whose keys share values: which of them are one object, in every copy."""
    seq, kind, keyed = case
    pool = {'lists': ([1], [1], [2]), 'mixed': ([1], 'text' * 9, None),
            'sets': ({1}, {1}, {2}), 'dicts': ({}, {}, {1: 1}),
            'nested': ([[0]], [[0]], [])}[kind]
    x = SortedDict(NEG if keyed else None, ((float(i), pool[j]) for i, j in
                                             enumerate(seq)))
    before = list(x.values())
    same = [[u is v for u in before] for v in before]
    for text, f in MAKERS:
        y = f(x)
        common(text, x, y)
        got = list(y.values())
        if got != before or list(y) != list(x) or [type(v) for v in got] != [
                type(v) for v in before]:
            raise Violation('%s of %r' % (text, x), before, got)
        if text in ('x.copy()', 'copy.copy(x)'):
            if any(u is not v for u, v in zip(got, before)):
                raise Violation('%s of %r: other objects' % (text, x), before, got)
        elif not text.startswith('eval'):
            if [[u is v for u in got] for v in got] != same:
                raise Violation('%s of %r: which values are the same object' % (
                    text, x), same, [[u is v for u in got] for v in got])
            for u, v in zip(got, before):
                if u is v and isinstance(u, (list, set, dict)):
                    raise Violation('%s of %r: shares values' % (text, x))
        y._check()
        st.add('transitions')
    st.kind(kind)


# three objects that tie or nearly tie, and a key
SHARED = {
    'numbers': (1, True, 1.0, None), 'order': (0, 0.0, 1, None), 'sub': (2, 2.0, 3, None),
    'lists': ([1], [1], [2], None), 'tuples': ((1,), (True,), (1.0,), None),
    'pairs': ([0, 'a'], [0, 'b'], [1, 'c'], domains.first),
    'complex': (1 + 1j, 1 - 1j, 2j, NEG), 'parity': (1 + 0j, 1.0, 1, NEG),
    'case': ('a', 'A', 'b', str.lower), 'len': ('x', 'y', 'zz', len),
}


class Holder:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return 'Holder(%r)' % (self.x,)


def q_hist(x, m, kind):
    """In the deep histories: copy and pickle at the sampled steps of the history."""
    for text, f in MAKERS[:1]:
        y = f(x)
        common(text, x, y)
        check_contents(y, m)
        q_struct(y, m, kind)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_copies,)
    cov.bfs('list', LSys('list', 4, 19 if deep else 16, battery=B))
    cov.bfs('list-full', LSys('list', 4, 9 if deep else 7, opset='full', battery=B))
    cov.bfs('list-ties', LSys('list', 4, 12 if deep else 9, distinct=False, kmax=3,
                              battery=B))
    cov.bfs('key', LSys('key', 4, 18 if deep else 14, battery=B))
    cov.bfs('key-ties', LSys('key', 4, 7 if deep else 5, distinct=False, kmax=2, emax=2,
                             battery=B))
    cov.bfs('sub', LSys('list', 4, 12 if deep else 9, cls=keys.SubList, battery=B))
    cov.bfs('sub-key', LSys('key', 4, 12 if deep else 9, cls=keys.SubKeyList, battery=B))
    cov.bfs('dict', DSys('num', 4, 14 if deep else 11, battery=(q_dcopies,)))
    cov.bfs('dict-key', DSys('key', 4, 12 if deep else 9, battery=(q_dcopies,)))
    cov.bfs('dict-ties', DSys('key', 4, 7 if deep else 5, emax=3, kmax=2,
                              battery=(q_dcopies,)))
    cov.bfs('dict-full', DSys('num', 4, 8 if deep else 6, 'full', battery=(q_dcopies,)))
    cov.bfs('dict-values', DSys('num', 4, 3 if deep else 2, 'full',
                                values=(None, 0, 'v'), battery=(q_dcopies,)))
    cov.bfs('sub-dict', DSys('key', 4, 10 if deep else 7, cls=keys.SubDict,
                             battery=(q_dcopies,)))
    cov.bfs('set', SSys('num', 4, 13 if deep else 10, battery=(q_scopies,)))
    cov.bfs('set-key', SSys('key', 4, 11 if deep else 8, battery=(q_scopies,)))
    cov.bfs('set-full', SSys('num', 4, 7 if deep else 5, 'full', battery=(q_scopies,)))
    cov.bfs('set-ties', SSys('key', 4, 5 if deep else 4, emax=3, kmax=2,
                             battery=(q_scopies,)))
    cov.bfs('sub-set', SSys('key', 4, 9 if deep else 7, cls=keys.SubSet,
                            battery=(q_scopies,)))
    cov.cases('larger', 'larger containers of every class, every way of copying',
              [(w, n, i) for w in ('list', 'key', 'listkey', 'sub', 'subkey', 'load',
                                   'loadkey', 'set', 'setkey', 'subset', 'dict',
                                   'dictkey', 'subdict')
               for n in (0, 1, 2, 7, 30, 100, 1001, 2100) for i in range(len(MAKERS))],
              big_case)
    cov.cases('apart', 'every single call on the copy or the original, index built '
              'before, after or not: the other answers as before',
              [(w, n, i) for w in ('list', 'listkey', 'set', 'setkey', 'dict', 'dictkey')
               for n in (0, 1, 2, 5, 9, 10, 13, 20, 33) + ((50, 68) if deep else ())
               for i in range(3)], apart_case)
    cov.cases('domains', 'containers of every kind of value',
              [(name, w, ki, i, n) for name in list(domains.DOMAINS) + list(domains.KEYED)
               if name not in ('opaque', 'funcs') for w in ('list', 'set', 'dict')
               for ki in range(1 + len(NAMED.get(name, ()))) for i in range(len(MAKERS))
               for n in (0, 1, 2, 9)], domain_case)
    w = 11 if deep else 9
    cov.cases('subsets', 'every subset of %d numbers (close, far apart, fractions) or '
              'strings, every container, every way of copying' % w, [
                  (what, bits, kn, unit) for what in ('list', 'twice', 'set', 'dict')
                  for unit, kns in ((whole, KEYS3), (apart3, KEYS3), (halves, KEYS3),
                                    (word, ('none',)))
                  for kn in kns for bits in range(1 << w)], subset_case)
    cov.cases('shared-values', 'dicts of up to %d keys over three values' % (6 + deep), [
        (seq, kind, keyed) for r in range(8 if deep else 7)
        for seq in product(range(3), repeat=r)
        for kind in ('lists', 'mixed', 'sets', 'dicts', 'nested')
        for keyed in (False, True) if r < 6 or deep or kind in ('lists', 'mixed')],
        shared_values_case)
    cov.cases('shared', 'every list of up to %d values over three objects that tie, each '
              'stored any number of times' % (6 if deep else 5), [
                  (name, seq, load) for name in SHARED for r in range(7 if deep else 6)
                  for seq in product(range(3), repeat=r) for load in (None, 4)] + [
                  (name, seq * 9, 4) for name in SHARED
                  for seq in product(range(3), repeat=3)], shared_case)
    cov.cases('recursive', 'containers holding themselves: repr is finite',
              [(w, n, at, d) for w in ('dict', 'dictkey', 'listkey', 'setkey')
               for n in (0, 1, 3, 30) for at in (range(-1, n) if w == 'dict' and n < 4
                                                 else (n,)) for d in (False, True)],
              recursive_case)
    cov.cases('histories', 'copying inside growth x shrink x read histories',
              hist_cases(('list', 'key'), (4, 5) if deep else (4,), 60 if deep else 40),
              partial(run_hist, battery=(q_hist,)))
    return cov.result(['repr is evaluated with key functions and values whose own repr '
                       'evaluates'])
