"""C21 Reads never change what later calls do.

Reads are transitions: from every state the closure under all reads is computed
(states are told apart by their full internal state), every read must answer the same
in every member of the closure, and every operation must have the same effect and
leave the same answers from every member of it."""
import copy
import pickle

from .. import reads
from ..core import Cov, Quiet, SortedDict, SortedList, SortedSet, Violation, clone, digest
from ..dicts import DictSys, check_dict, probe_keys
from ..keys import NEG
from ..lists import (KINDS, ListSys, check_contents, fmt, outcome, probe_values)
from ..sets import SetSys, check_set, probe_members


def norm(v):
    if isinstance(v, (SortedList, SortedSet)):
        return (type(v).__name__, list(v))
    if isinstance(v, SortedDict):
        return ('SortedDict', list(v.items()))
    if isinstance(v, (list, tuple, set, frozenset, dict, str, bytes, int, float,
                      complex, bool)) or v is None or v is NotImplemented:
        return v
    return list(v)


def out(fn, y):
    o = outcome(fn, y)
    return ('ok', norm(o[1])) if o[0] == 'ok' else o


def pts_of(n):
    return sorted({0, 1, n // 2, n - 1, n, -1, -n, -n - 1})


def seq_reads(n, probes, keyed, key):
    """Reads shared by lists and sets (the sequence interface)."""
    R = [('list(x)', list), ('reversed(x)', lambda x: list(reversed(x))),
         ('len(x)', len), ('bool(x)', bool), ('repr(x)', repr), ('str(x)', str),
         ('x.copy()', lambda x: x.copy()), ('copy.copy(x)', copy.copy),
         ('copy.deepcopy(x)', copy.deepcopy),
         ('pickle', lambda x: pickle.loads(pickle.dumps(x)).__len__()),
         ('x == x', lambda x: x == x), ('x != x.copy()', lambda x: x != x.copy()),
         ('x < []', lambda x: x < type(x)()), ('x >= x', lambda x: x >= x),
         ('x == 5', lambda x: x == 5),
         ('x[:]', lambda x: x[:]), ('x[::-1]', lambda x: x[::-1]),
         ('x[1:-1:2]', lambda x: x[1:-1:2]), ('x[2:4]', lambda x: x[2:4]),
         ('x[n//2:]', lambda x: x[n // 2:]), ('x[::0]', lambda x: x[::0]),
         ('islice()', lambda x: list(x.islice())),
         ('islice(1, n, True)', lambda x: list(x.islice(1, n, True))),
         ('islice(n//2)', lambda x: list(x.islice(n // 2))),
         ('irange()', lambda x: list(x.irange())),
         ('partial iter', lambda x: next(iter(x), None)),
         ('partial reversed', lambda x: next(reversed(x), None)),
         ('partial islice', lambda x: next(x.islice(1), None)),
         ('partial irange', lambda x: next(x.irange(), None)),
         ('x.key', lambda x: getattr(x, 'key', None) is None),
         ('dir', lambda x: len(dir(x)) > 0)]
    for i in pts_of(n):
        R.append(('x[%d]' % i, lambda x, i=i: x[i]))
    for v in probes:
        R += [('%r in x' % v, lambda x, v=v: v in x),
              ('bisect_left(%r)' % v, lambda x, v=v: x.bisect_left(v)),
              ('bisect_right(%r)' % v, lambda x, v=v: x.bisect_right(v)),
              ('index(%r)' % v, lambda x, v=v: x.index(v)),
              ('count(%r)' % v, lambda x, v=v: x.count(v)),
              ('index(%r, 1, -1)' % v, lambda x, v=v: x.index(v, 1, -1)),
              ('irange(%r)' % v, lambda x, v=v: list(x.irange(v))),
              ('irange(None, %r, reverse)' % v,
               lambda x, v=v: list(x.irange(None, v, (False, False), True)))]
        if keyed:
            R += [('bisect_key(%r)' % v, lambda x, v=v: x.bisect_key(key(v))),
                  ('irange_key(%r)' % v, lambda x, v=v: list(x.irange_key(key(v))))]
    return R


def iters(n, mid):
    """Partially consumable iterators."""
    return [('iter(x)', iter), ('reversed(x)', reversed),
            ('x.islice()', lambda x: x.islice()),
            ('x.islice(1, n - 1)', lambda x: x.islice(1, n - 1)),
            ('x.islice(reverse=True)', lambda x: x.islice(reverse=True)),
            ('x.irange()', lambda x: x.irange()),
            ('x.irange(mid)', lambda x: x.irange(mid)),
            ('x.irange(None, mid, reverse=True)',
             lambda x: x.irange(None, mid, reverse=True))]


def self_check(text, y):
    """The container's own check passes after a read as it did before."""
    with Quiet():
        o = outcome(y._check)
    if o[0] == 'err':
        raise Violation('%s: _check() afterwards' % text, 'passes', fmt(o))


class Reads:
    """The search: mixed into the three systems."""
    deep_iters = 12

    # hooks: target(y) container of the state; contents(y, m); reads(y, m)

    def at(self, ex, i):
        self.ex, self.i = ex, i

    def known_after(self, base, y, m2, rs, text, st):
        """y (after an operation from a read state) answers like base."""
        if digest(y) == digest(base):
            return
        da = (digest(y), digest(base))
        if da in self.okpairs:
            return
        for t, fn in rs:
            a = out(fn, self.target(clone(base)))
            b = out(fn, self.target(clone(y)))
            if a != b:
                raise Violation('%s, then %s' % (text, t), fmt(a), fmt(b))
            st.add('transitions')
        self.okpairs.add(da)

    def on_state(self, x, m, st):
        self.okpairs = set()
        rs = self.reads(x, m)
        base = {}
        for t, fn in rs:
            base[t] = out(fn, self.target(clone(x)))
        d0 = digest(x)
        known = {d0: (clone(x), 'nothing')}
        todo = [d0]
        while todo:
            s, how = known[todo.pop()]
            for t, fn in rs:
                y = clone(s)
                for again in ('', ' again'):
                    o = out(fn, self.target(y))
                    if o != base[t]:
                        raise Violation('%s, then %s%s' % (how, t, again),
                                        fmt(base[t]), fmt(o))
                    try:
                        self.contents(y, m)
                    except Violation as v:
                        raise Violation('%s, then %s changed the contents' % (how, t),
                                        v.info['expected'], v.info['actual'])
                    st.add('transitions')
                d = digest(y)
                if d not in known:
                    self_check('%s, then %s' % (how, t), self.target(y))
                    known[d] = (y, t if how == 'nothing' else how + ', ' + t)
                    todo.append(d)
        st.add('readstates', len(known))
        # every operation from every member of the closure
        light = self.light(rs)
        for op in self.ops(x, m):
            ref = clone(x)
            try:
                m2 = self.step(ref, m, op)
            except Violation:
                raise
            for d, (s, how) in known.items():
                if d == d0:
                    continue
                y = clone(s)
                try:
                    self.step(y, m, op)
                except Violation as v:
                    raise Violation('%s, then %s' % (how, v.info['what']),
                                    v.info['expected'], v.info['actual'])
                st.add('transitions')
                self.known_after(ref, y, m2, self.reads(y, m2) if light is None
                                 else self.light(self.reads(y, m2)),
                                 '%s, then %s' % (how, self.render(op)), st)
        self.replays(m, rs, base, st)
        self.partial(x, m, rs, base, st)
        st.add('batteries')

    def light(self, rs):
        return rs[::2] + rs[1:2]

    def replays(self, m, rs, base, st):
        """The whole history from scratch with one read inserted after every call."""
        path = self.ex.path(self.i)
        if len(path) < 2 or self.i % self.rep:
            return
        j = self.i
        while self.ex.parent[j] is not None:
            j = self.ex.parent[j]
        lab = self.ex.labels[j]
        for t, fn in rs:
            obj, model = self.fresh(lab)
            for op in path:
                out(fn, self.target(obj))
                model = self.step(obj, model, op)
            out(fn, self.target(obj))
            for t2, fn2 in rs:
                o = out(fn2, self.target(obj))
                if o != base[t2]:
                    raise Violation('history with %s after every call, then %s' % (
                        t, t2), fmt(base[t2]), fmt(o))
            st.add('transitions', len(path))
            st.add('replayed')

    def partial(self, x, m, rs, base, st):
        """An iterator that is part-way through while reads happen, and one that is
        abandoned part-way before an operation."""
        n = len(m)
        if n > self.deep_iters:
            return
        y = clone(x)
        for t, mk in self.iters(y, m):
            full = list(mk(self.target(clone(x))))
            for k in range(len(full) + 1):
                for t2, fn in rs[k % 3::3]:
                    y = clone(x)
                    c = self.target(y)
                    it = mk(c)
                    got = [next(it) for _ in range(k)]
                    o = out(fn, c)
                    if o != base[t2]:
                        raise Violation('%s consumed %d, then %s' % (t, k, t2),
                                        fmt(base[t2]), fmt(o))
                    got += it
                    if got != full:
                        raise Violation('%s with %s after %d items' % (t, t2, k),
                                        full, got)
                    st.add('transitions')
        its = self.iters(y, m)
        for t, mk in its:
            for op in self.ops(x, m):
                y = clone(x)
                it = mk(self.target(y))
                next(it, None)
                try:
                    self.step(y, m, op)
                except Violation as v:
                    raise Violation('%s started, then %s' % (t, v.info['what']),
                                    v.info['expected'], v.info['actual'])
                st.add('transitions')
                del it


class LSys(Reads, ListSys):
    rep = 7

    def target(self, y):
        return y

    def contents(self, y, m):
        check_contents(y, m)

    def reads(self, x, m):
        k = self.kind
        n = len(m)
        pv = probe_values(m, k, ties=False)
        pv = pv if len(pv) <= 7 else pv[:3] + pv[len(pv) // 2:][:2] + pv[-2:]
        R = seq_reads(n, pv, k.keyed, k.key)
        R += [('x + [v]', lambda x: x + [k.elem(0.5)]), ('x * 2', lambda x: x * 2),
              ('2 * x', lambda x: 2 * x), ('x == list(x)', lambda x: x == list(x)),
              ('x < list', lambda x: x < [k.elem(1.0)] if not k.keyed else None)]
        return R

    def iters(self, y, m):
        return iters(len(m), m[len(m) // 2] if m else self.kind.elem(0.0))


class SSys(Reads, SetSys):
    rep = 5

    def target(self, y):
        return y.ss

    def contents(self, y, m):
        check_set(y.ss, m, self.kind)

    def reads(self, b, m):
        k = self.kind
        order = list(b.ss)
        n = len(order)
        pv = probe_members(m, k)
        pv = pv if len(pv) <= 5 else pv[:2] + pv[len(pv) // 2:][:1] + pv[-2:]
        R = seq_reads(n, pv, k.keyed, k.key)
        o = set(order[:2]) | {k.elem(0.5)}
        for nm in ('union', 'intersection', 'difference', 'symmetric_difference',
                   'isdisjoint', 'issubset', 'issuperset'):
            R.append(('x.%s(o)' % nm, lambda x, nm=nm: getattr(x, nm)(o)))
        R += [('x | o', lambda x: x | o), ('x & o', lambda x: x & o),
              ('x - o', lambda x: x - o), ('x ^ o', lambda x: x ^ o),
              ('o | x', lambda x: o | x), ('o & x', lambda x: o & x),
              ('o - x', lambda x: o - x), ('o ^ x', lambda x: o ^ x),
              ('x <= o', lambda x: x <= o), ('x == o', lambda x: x == o),
              ('x > o', lambda x: x > o), ('o == x', lambda x: o == x)]
        return R

    def iters(self, b, m):
        order = list(b.ss)
        return iters(len(m), order[len(m) // 2] if m else self.kind.elem(0.0))


class DSys(Reads, DictSys):
    rep = 5

    def target(self, y):
        return y.sd

    def contents(self, y, m):
        check_dict(y.sd, m, self.kind)

    def reads(self, b, m):
        k = self.kind
        order = list(b.sd)
        n = len(order)
        pv = probe_keys(m, k)
        pv = pv if len(pv) <= 5 else pv[:2] + pv[len(pv) // 2:][:1] + pv[-2:]
        R = [('list(x)', list), ('reversed(x)', lambda x: list(reversed(x))),
             ('len(x)', len), ('bool(x)', bool), ('repr(x)', repr),
             ('x.copy()', lambda x: x.copy()), ('copy.copy', copy.copy),
             ('copy.deepcopy', copy.deepcopy),
             ('pickle', lambda x: len(pickle.loads(pickle.dumps(x)))),
             ('x == x', lambda x: x == x), ('x == dict(x)', lambda x: x == dict(x)),
             ('x != {}', lambda x: x != {}),
             ('x | {}', lambda x: x | {}), ('{} | x', lambda x: {} | x),
             ('islice()', lambda x: list(x.islice(1, n))),
             ('irange()', lambda x: list(x.irange(reverse=True))),
             ('partial iter', lambda x: next(iter(x), None)),
             ('x.key', lambda x: x.key is None)]
        for nm in ('keys', 'items', 'values'):
            g = (lambda x, nm=nm: getattr(x, nm)())
            R += [('list(x.%s())' % nm, lambda x, g=g: list(g(x))),
                  ('reversed(x.%s())' % nm, lambda x, g=g: list(reversed(g(x)))),
                  ('x.%s()[:]' % nm, lambda x, g=g: g(x)[:]),
                  ('x.%s()[1:3]' % nm, lambda x, g=g: g(x)[1:3]),
                  ('x.%s()[::-2]' % nm, lambda x, g=g: g(x)[::-2]),
                  ('x.%s()[-1]' % nm, lambda x, g=g: g(x)[-1]),
                  ('x.%s()[n]' % nm, lambda x, g=g: g(x)[n]),
                  ('repr(x.%s())' % nm, lambda x, g=g: repr(g(x))),
                  ('len(x.%s())' % nm, lambda x, g=g: len(g(x))),
                  ('x.%s().index' % nm, lambda x, g=g: g(x).index(g(x)[0])),
                  ('x.%s().count' % nm, lambda x, g=g: g(x).count(g(x)[0])),
                  ('0 in x.%s()' % nm, lambda x, g=g: (0, 0) in g(x)),
                  ('partial x.%s()' % nm, lambda x, g=g: next(iter(g(x)), None))]
        if not k.keyed:
            o = set(order[:2]) | {k.elem(0.5)}
            R += [('keys & o', lambda x: x.keys() & o), ('keys | o',
                                                         lambda x: x.keys() | o),
                  ('keys - o', lambda x: x.keys() - o),
                  ('keys ^ o', lambda x: x.keys() ^ o),
                  ('keys <= o', lambda x: x.keys() <= o),
                  ('items & ', lambda x: x.items() & x.items())]
        for i in pts_of(n):
            R.append(('peekitem(%d)' % i, lambda x, i=i: x.peekitem(i)))
        for v in pv:
            R += [('%r in x' % v, lambda x, v=v: v in x),
                  ('x[%r]' % v, lambda x, v=v: x[v]),
                  ('x.get(%r)' % v, lambda x, v=v: x.get(v, 0)),
                  ('bisect_left(%r)' % v, lambda x, v=v: x.bisect_left(v)),
                  ('bisect(%r)' % v, lambda x, v=v: x.bisect(v)),
                  ('index(%r)' % v, lambda x, v=v: x.index(v)),
                  ('irange(%r)' % v, lambda x, v=v: list(x.irange(v)))]
        return R

    def iters(self, b, m):
        order = list(b.sd)
        mid = order[len(m) // 2] if m else self.kind.elem(0.0)
        return iters(len(m), mid)[:6] + [
            ('iter(x.items())', lambda x: iter(x.items())),
            ('iter(x.values())', lambda x: iter(x.values())),
            ('reversed(x.keys())', lambda x: reversed(x.keys())),
            ('x.irange(mid)', lambda x: x.irange(mid))]


def big_case(case, st):
    """Larger containers: each read before each mutation, against the same mutation
    without the read."""
    what, n, load = case
    vals = [float(2 * i) for i in range(n)]

    def build():
        if what == 'list':
            c = SortedList(vals)
        elif what == 'key':
            c = SortedList(vals, key=NEG)
        elif what == 'set':
            c = SortedSet(vals)
        else:
            c = SortedDict.fromkeys(vals, 0)
        if load:
            c._reset(load)
        return c
    L = load or 1000
    order = list(build())
    at = sorted({0, 1, L - 1, L, L + 1, n // 2, n - 1} & set(range(n)))
    seq = (lambda c: c.keys()) if what == 'dict' else (lambda c: c)
    reads = [('none', lambda c: None), ('[mid]', lambda c: seq(c)[n // 2]),
             ('index', lambda c: c.index(order[n // 2])),
             ('bisect', lambda c: c.bisect(order[n // 3])),
             ('[-1]', lambda c: seq(c)[-1]), ('slice', lambda c: seq(c)[1:n - 1]),
             ('islice', lambda c: list(c.islice(n // 3, n // 2))),
             ('islice rev', lambda c: list(c.islice(n // 3, n // 2, True))),
             ('irange', lambda c: list(c.irange(order[n // 3], order[n // 2]))),
             ('islice rev all', lambda c: list(c.islice(1, n - 1, True))),
             ('islice all', lambda c: list(c.islice(1, n - 1))),
             ('irange rev all', lambda c: list(c.irange(order[1], order[-2],
                                                        reverse=True))),
             ('irange all', lambda c: list(c.irange(order[1], order[-2]))),
             ('slice -1', lambda c: seq(c)[n - 2:1:-1]),
             ('slice 3', lambda c: seq(c)[2:n - 2:3]), ('slice :', lambda c: seq(c)[:]),
             ('[0]', lambda c: seq(c)[0]), ('[-n]', lambda c: seq(c)[-n]),
             ('[1]', lambda c: seq(c)[1]), ('contains absent', lambda c: -1 in c),
             ('bisect end', lambda c: c.bisect(order[-1])),
             ('count', lambda c: seq(c).count(order[n // 2])),
             ('in', lambda c: order[n // 2] in c), ('copy', lambda c: c.copy()),
             ('repr', repr), ('eq', lambda c: c == c.copy()),
             ('list', list), ('reversed', lambda c: list(reversed(c)))]
    if what == 'dict':
        reads += [('peekitem %d' % i, lambda c, i=i: c.peekitem(i))
                  for i in (0, 1, n // 2, -2, -1)]
        reads += [('values [0]', lambda c: c.values()[0]),
                  ('items [-1]', lambda c: c.items()[-1]),
                  ('get', lambda c: c.get(order[1])), ('key', lambda c: c[order[-1]]),
                  ('keys & ', lambda c: c.keys() & set(order[:3])),
                  ('items', lambda c: list(c.items()))]
        muts = [('set new %d' % i, lambda c, i=i: c.__setitem__(order[i] + 1, 1))
                for i in at]
        muts += [('del %d' % i, lambda c, i=i: c.__delitem__(order[i])) for i in at]
        muts += [('popitem %d' % i, lambda c, i=i: c.popitem(i)) for i in at]
        muts += [('update', lambda c: c.update({1.0: 1, 3.0: 1})),
                 ('update big', lambda c: c.update((v + 1, 1) for v in vals)),
                 ('clear', lambda c: c.clear()),
                 ('del slice', lambda c: c.keys().__delitem__(slice(1, n // 2)))]
    else:
        if what == 'set':
            o = set(order[:3]) | {1.0}
            reads += [(nm, lambda c, nm=nm: getattr(c, nm)(o)) for nm in (
                'union', 'intersection', 'difference', 'symmetric_difference',
                'isdisjoint', 'issubset', 'issuperset', '__le__', '__gt__', '__rsub__')]
        else:
            reads += [('x + []', lambda c: c + []), ('x * 2', lambda c: c * 2),
                      ('x < []', lambda c: c < [])]
        muts = [('add %d' % i, lambda c, i=i: c.add(order[i] + 1)) for i in at]
        muts += [('discard %d' % i, lambda c, i=i: c.discard(order[i])) for i in at]
        muts += [('pop %d' % i, lambda c, i=i: c.pop(i)) for i in at]
        muts += [('del %d' % i, lambda c, i=i: c.__delitem__(i)) for i in at]
        muts += [('update', lambda c: c.update([1.0, 3.0])),
                 ('update big', lambda c: c.update([v + 1 for v in vals])),
                 ('clear', lambda c: c.clear()),
                 ('del slice', lambda c: c.__delitem__(slice(1, n // 2))),
                 ('del step', lambda c: c.__delitem__(slice(None, None, 3)))]
        if what != 'set':
            muts.append(('imul', lambda c: c.__imul__(2)))

    def look(c):
        s = seq(c)
        k = len(c)
        l = list(s)
        stride = max(1, k // 40)
        return (l, k, [s[i] for i in range(0, k, stride)],
                [c.bisect_left(v) for v in l[::stride]],
                [c.index(v) for v in l[::stride]], s[k // 3:k // 2])
    for mt, mut in muts:
        ref = None
        for rt, rd in reads:
            c = build()
            rd(c)
            self_check('%r: %s' % (case, rt), c)
            mut(c)
            rd2 = out(lambda z: rd(z), c)
            got = look(c)
            if ref is None:
                ref = got
            elif got != ref:
                raise Violation('%r: %s, then %s' % (case, rt, mt), 'same as without '
                                'the read', [i for i in range(6) if got[i] != ref[i]])
            st.add('transitions')
            del rd2


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    cov.cases('larger', 'every read before and after every mutation on larger '
              'containers', [(w, n, load) for w in ('list', 'key', 'set', 'dict')
                             for n, load in ((40, 4), (66, 5), (150, 4), (600, 4), (2100, None)) + (
                                 ((4500, None), (3000, 4)) if deep else ())],
              big_case, timeout=300)
    cov.cases('interleaved', 'every history of %d calls, every read before every one of '
              'them and again at the end' % (3 + deep), reads.cases(3 + deep),
              reads.interleaved, timeout=900)
    cov.bfs('list', LSys('list', 4, 17 if deep else 14))
    cov.bfs('list-full', LSys('list', 4, 9 if deep else 7, opset='full'))
    cov.bfs('list-ties', LSys('list', 4, 10 if deep else 8, distinct=False, kmax=3))
    cov.bfs('key', LSys('key', 4, 15 if deep else 11))
    cov.bfs('set', SSys('num', 4, 14 if deep else 11))
    cov.bfs('set-full', SSys('num', 4, 10 if deep else 6, 'full'))
    cov.bfs('set-key', SSys('key', 4, 11 if deep else 8))
    cov.bfs('dict', DSys('num', 4, 14 if deep else 10))
    cov.bfs('dict-full', DSys('num', 4, 10 if deep else 6, 'full'))
    cov.bfs('dict-key', DSys('key', 4, 11 if deep else 8))
    return cov.result()
