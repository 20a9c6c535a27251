"""Reads interleaved with mutations: every history of a few mutations, with every read
made at every earlier moment (with the very same argument objects) and again at the end,
where all answers are compared with those of a plain sorted list, set or dict.  Anything
a read leaves behind and a mutation forgets to renew gives a wrong answer at the end."""
import itertools
import re
from operator import neg

from .core import Quiet, SortedDict, SortedList, SortedSet, Violation

T = [float(i) for i in range(40)]      # one object per value
NEW = T[30]


def err(fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        return type(e)


class Plain:
    """The model: a sorted list m (and for dicts the values d)."""

    def __init__(self, what, key):
        self.what = what
        self.key = key
        self.m = []
        self.d = {}

    def ins(self, v, val=None):
        if self.what != 'list' and v in self.m:
            if self.what == 'dict':
                self.d[v] = val
            return
        k = self.key
        i = 0
        m = self.m
        while i < len(m) and not (k(v) < k(m[i]) if k else v < m[i]):
            i += 1
        m.insert(i, v)
        self.d[v] = val

    def rem(self, v):
        if v in self.m:
            self.m.remove(v)
            self.d.pop(v, None)


def ops_of(what, vals):
    """(name, on the container, on the model)"""
    out = []
    for v in vals:
        if what == 'dict':
            out.append(('[%r] = 1' % v, lambda c, v=v: c.__setitem__(v, 1),
                        lambda p, v=v: p.ins(v, 1)))
            out.append(('pop(%r)' % v, lambda c, v=v: c.pop(v, None),
                        lambda p, v=v: p.rem(v)))
        else:
            out.append(('add(%r)' % v, lambda c, v=v: c.add(v),
                        lambda p, v=v: p.ins(v)))
            out.append(('discard(%r)' % v, lambda c, v=v: c.discard(v),
                        lambda p, v=v: p.rem(v)))
    pop = (lambda c, i: err(c.popitem if what == 'dict' else c.pop, i))
    out += [('pop(%d)' % i, lambda c, i=i: pop(c, i),
             lambda p, i=i: p.m and p.rem_at(i)) for i in (0, -1)]
    few = (vals[0], NEW)
    if what == 'dict':
        out += [('update few', lambda c: c.update({v: 2 for v in few}),
                 lambda p: [p.ins(v, 2) for v in few]),
                ('setdefault', lambda c: c.setdefault(vals[1], 3),
                 lambda p: vals[1] in p.m or p.ins(vals[1], 3)),
                ('del keys()[1:3]', lambda c: c.keys().__delitem__(slice(1, 3)),
                 lambda p: p.cut(1, 3))]
    else:
        out += [('update few', lambda c: c.update(few),
                 lambda p: [p.ins(v) for v in few]),
                ('del [1:3]', lambda c: c.__delitem__(slice(1, 3)),
                 lambda p: p.cut(1, 3))]
        if what == 'list':
            out.append(('*= 2', lambda c: c.__imul__(2),
                        lambda p: [p.ins(v) for v in list(p.m)]))
        else:
            out += [('&=', lambda c: c.intersection_update(T[3:20]),
                     lambda p: [p.rem(v) for v in list(p.m) if v not in T[3:20]]),
                    ('^=', lambda c: c.symmetric_difference_update(few),
                     lambda p: [p.rem(v) if v in p.m else p.ins(v) for v in few])]
    out += [('clear', lambda c: c.clear(), lambda p: p.cut(0, None)),
            ('_reset(5)', lambda c: c._reset(5), lambda p: None)]
    return out


def rem_at(self, i):
    v = self.m.pop(i)
    if v not in self.m:
        self.d.pop(v, None)


def cut(self, a, b):
    for v in self.m[a:b]:
        self.d.pop(v, None)
    del self.m[a:b]


Plain.rem_at = rem_at
Plain.cut = cut


def reads_of(what, key, vals):
    """(name, of the container, of the model)"""
    K = key or (lambda v: v)
    seq = (lambda c: c.keys()) if what == 'dict' else (lambda c: c)
    R = [('list', list, lambda p: list(p.m)), ('len', len, lambda p: len(p.m)),
         ('reversed', lambda c: list(reversed(c)), lambda p: p.m[::-1]),
         ('[1:3]', lambda c: seq(c)[1:3], lambda p: p.m[1:3]),
         ('[::-2]', lambda c: seq(c)[::-2], lambda p: p.m[::-2]),
         ('islice', lambda c: list(c.islice(1, -1, True)), lambda p: p.m[1:-1][::-1]),
         ('irange', lambda c: list(c.irange()), lambda p: list(p.m)),
         ('copy', lambda c: list(c.copy()), lambda p: list(p.m)),
         ('repr', lambda c: re.findall(r'\d+\.\d', repr(c)),
          lambda p: [repr(v) for v in p.m]),
         ('bool', bool, lambda p: bool(p.m))]
    for i in (0, 1, 5, -1, -2, 9):
        R.append(('[%d]' % i, lambda c, i=i: seq(c)[i], lambda p, i=i: p.m[i]))
    for v in vals + [NEW]:
        R += [('bisect_left(%r)' % v, lambda c, v=v: c.bisect_left(v),
               lambda p, v=v: sum(1 for e in p.m if K(e) < K(v))),
              ('bisect(%r)' % v, lambda c, v=v: c.bisect(v),
               lambda p, v=v: sum(1 for e in p.m if not K(v) < K(e))),
              ('index(%r)' % v, lambda c, v=v: c.index(v), lambda p, v=v: p.m.index(v)),
              ('count(%r)' % v, lambda c, v=v: seq(c).count(v),
               lambda p, v=v: p.m.count(v)),
              ('%r in' % v, lambda c, v=v: v in c, lambda p, v=v: v in p.m),
              ('irange(%r)' % v, lambda c, v=v: list(c.irange(v)),
               lambda p, v=v: [e for e in p.m if not K(e) < K(v)])]
        if key:
            k = key(v)
            R.append(('bisect_key(%r)' % k, lambda c, k=k: c.bisect_key(k),
                      lambda p, k=k: sum(1 for e in p.m if not k < K(e))))
    if what == 'list':
        R += [('==', lambda c: c == T[:4], lambda p: p.m == T[:4]),
              ('< ', lambda c: c < T[2:5], lambda p: p.m < T[2:5]),
              ('+', lambda c: len(c + T[:2]), lambda p: len(p.m) + 2),
              ('*', lambda c: list(c * 1), lambda p: list(p.m))]
    if what == 'set':
        o = {T[0], T[2], NEW}
        R += [('&', lambda c: list(c & o), lambda p: [e for e in p.m if e in o]),
              ('|', lambda c: set(c | o), lambda p: set(p.m) | o),
              ('-', lambda c: list(c - o), lambda p: [e for e in p.m if e not in o]),
              ('o -', lambda c: set(o - c), lambda p: o - set(p.m)),
              ('^', lambda c: set(c ^ o), lambda p: set(p.m) ^ o),
              ('isdisjoint', lambda c: c.isdisjoint(o), lambda p: o.isdisjoint(p.m)),
              ('issubset', lambda c: c.issubset(T[:9]), lambda p: set(p.m) <= set(T[:9])),
              ('issuperset', lambda c: c.issuperset(o), lambda p: o <= set(p.m)),
              ('==', lambda c: c == o, lambda p: set(p.m) == o)]
    if what == 'dict':
        R += [('items', lambda c: list(c.items()), lambda p: [(e, p.d[e]) for e in p.m]),
              ('values', lambda c: list(c.values()), lambda p: [p.d[e] for e in p.m]),
              ('items[::-1]', lambda c: c.items()[::-1],
               lambda p: [(e, p.d[e]) for e in p.m[::-1]]),
              ('values[1]', lambda c: c.values()[1], lambda p: p.d[p.m[1]]),
              ('peekitem', lambda c: c.peekitem(), lambda p: (p.m[-1], p.d[p.m[-1]])),
              ('==', lambda c: c == {T[0]: 1}, lambda p: p.d == {T[0]: 1}),
              ('items index', lambda c: c.items().index((T[0], 1)),
               lambda p: [(e, p.d[e]) for e in p.m].index((T[0], 1)))]
        R += [('get(%r)' % v, lambda c, v=v: c.get(v, 7), lambda p, v=v: p.d.get(v, 7))
              for v in vals]
        if not key:
            o = {T[0], T[2], NEW}
            R += [('keys & o', lambda c: list(c.keys() & o),
                   lambda p: [e for e in p.m if e in o]),
                  ('keys - o', lambda c: list(c.keys() - o),
                   lambda p: [e for e in p.m if e not in o])]
    return R


SEEDS = {'empty': [], 'four': T[:4], 'many': T[:18]}


def setup(what, seed):
    vals = [T[0], T[2], T[7]] if seed == 'many' else [T[0], T[1], T[5]]
    return vals


def interleaved(case, st):
    what, keyed, seed, first, depth = case
    key = neg if keyed else None
    vals = setup(what, seed)
    ops = ops_of(what, vals)
    R = reads_of(what, key, vals)
    start = SEEDS[seed]

    def make():
        if what == 'list':
            c = SortedList(key=key)
        elif what == 'set':
            c = SortedSet(key=key)
        else:
            c = SortedDict(key)
        c._reset(4)
        c.update([(v, 0) for v in start] if what == 'dict' else start)
        return c

    def fail(h, p, early, late, want, got):
        raise Violation(
            '%s%s of %s: %s; read %s before call %d; then %s' % (
                what, ' (keyed)' if keyed else '', start, ', '.join(o[0] for o in h),
                early, p + 1, late), want, got)
    for rest in itertools.product(ops, repeat=depth - 1):
        h = (ops[first],) + rest
        p = Plain(what, key)
        for v in start:
            p.ins(v, 0)
        for o in h:
            o[2](p)
        want = [err(mod, p) for _, _, mod in R]
        for at in range(depth):
            pre, post = h[:at], h[at:]
            for (name, fn, _), w in zip(R, want):
                c = make()
                for o in pre:
                    o[1](c)
                err(fn, c)
                for o in post:
                    o[1](c)
                got = err(fn, c)
                if got != w:
                    fail(h, at, name, name, w, got)
            # all of them early, all of them late, in both orders
            for order in (1, -1):
                c = make()
                for o in pre:
                    o[1](c)
                for name, fn, _ in R:
                    err(fn, c)
                for o in post:
                    o[1](c)
                for (name, fn, _), w in list(zip(R, want))[::order]:
                    got = err(fn, c)
                    if got != w:
                        fail(h, at, 'all', name, w, got)
                with Quiet():
                    got = err(lambda c: c._check(), c)
                if got is not None:
                    fail(h, at, 'all', '_check()', None, got)
            st.add('transitions', (len(R) + 2) * depth)
        st.add('states')
    st.kind('%s/%s' % (what, seed))


def cases(depth):
    out = []
    for what in ('list', 'set', 'dict'):
        for keyed in (False, True):
            for seed in SEEDS:
                n = len(ops_of(what, setup(what, seed)))
                out += [(what, keyed, seed, f, depth) for f in range(n)]
    return out
