"""C09 The consistency self-check passes and segments stay balanced, always."""
from functools import partial

from ..big import bulk_cases, default_cases, hist_cases, op_case, run_hist
from ..core import (Cov, Quiet, SortedDict, SortedKeyList, SortedList, SortedSet,
                    Violation, clone)
from ..dicts import DictSys
from ..dicts import q_check as d_check
from ..lists import KINDS, ListSys, outcome, fmt, q_struct, struct_problem
from ..sets import SetSys
from ..sets import q_check as s_check
from ..wide import runs_cases, w_check, w_contents, wide_case


def inner(obj, key, what):
    """Structure of the sorted-list part, where it can be seen."""
    lst = getattr(obj, '_list', None)
    if lst is not None:
        p = struct_problem(lst, key)
        if p:
            raise Violation('%s: internal consistency broken: %s' % (what, p),
                            'consistent', getattr(lst, '_lists', None))
        if list(lst) != list(obj):
            raise Violation('%s: list part disagrees with iteration' % what,
                            list(obj), list(lst))


def qd(b, m, kind):
    sd = b.sd
    d_check(b, m, kind)
    inner(sd, kind.key, 'SortedDict')
    part = list(dict.keys(sd))
    if len(part) != len(m) or set(part) != set(m) or set(part) != set(sd):
        raise Violation('dict part and list part hold different keys', sorted(
            m, key=kind.okey), (part, list(sd)))


def qs(b, m, kind):
    ss = b.ss
    s_check(b, m, kind)
    inner(ss, kind.key, 'SortedSet')
    part = getattr(ss, '_set', None)
    if part is not None and (len(part) != len(m) or part != m):
        raise Violation('set part and list part hold different values', m, part)
    for v in m:
        if v not in ss:
            raise Violation('%r in ss' % (v,), True, False)


class DSys(DictSys):
    def on_leaf(self, b, m, st):
        qd(b, m, self.kind)
        st.add('leaves')


class SSys(SetSys):
    def on_leaf(self, b, m, st):
        qs(b, m, self.kind)
        st.add('leaves')


class Resets(ListSys):
    """In every state the load factor is changed to each of a range of values."""

    def on_state(self, x, m, st):
        super().on_state(x, m, st)
        for r in (4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24):
            y = clone(x)
            y._reset(r)
            try:
                q_struct(y, m, self.kind)
                if list(y) != m:
                    raise Violation('contents', m, list(y))
            except Violation as v:
                v.args = ('after _reset(%d): %s' % (r, v.args[0]),) + v.args[1:]
                raise
            st.add('transitions')


def big_case(case, st):
    """Sets and dicts of several hundred values through every bulk call; the check and
    the structure after each."""
    what, load, n, keyed = case
    key = (lambda v: -v) if keyed else None
    if what == 'set':
        x = SortedSet(range(0, 2 * n, 2), key=key)
        q = lambda: sorted(set(x), key=key)
    else:
        x = SortedDict(key, ((i, i) for i in range(0, 2 * n, 2)))
        q = lambda: sorted(dict.keys(x), key=key)
    if load:
        x._reset(load)

    def chk(tag):
        from ..core import Quiet
        with Quiet():
            o = outcome(x._check)
        if o[0] == 'err':
            raise Violation('%r %s: _check()' % (case, tag), 'passes', fmt(o))
        inner(x, key, '%r %s' % (case, tag))
        if list(x) != q():
            raise Violation('%r %s: contents' % (case, tag), q(), list(x))
        st.add('transitions')
    chk('built')
    if what == 'set':
        steps = [
            ('update small', lambda: x.update(range(1, n // 4, 2))),
            ('update big', lambda: x.update(range(1, 2 * n, 2))),
            ('difference_update small', lambda: x.difference_update(range(3, n // 8))),
            ('difference_update big', lambda: x.difference_update(range(n, 2 * n))),
            ('intersection_update', lambda: x.intersection_update(range(5, n - 5))),
            ('symmetric_difference_update',
             lambda: x.symmetric_difference_update(range(0, 2 * n, 3))),
            ('-= set', lambda: x.__isub__(set(range(0, n, 3)))),
            ('&= set', lambda: x.__iand__(set(range(n // 2, 2 * n)))),
            ('del slice', lambda: x.__delitem__(slice(2, len(x) // 2))),
            ('del step', lambda: x.__delitem__(slice(None, None, 3))),
            ('|= set', lambda: x.__ior__(set(range(n)))),
            ('clear', lambda: x.clear()),
            ('add', lambda: [x.add(i * 7 % n) for i in range(n)]),
        ]
    else:
        steps = [
            ('update small', lambda: x.update((i, 1) for i in range(1, n // 4, 2))),
            ('update big', lambda: x.update({i: 1 for i in range(1, 2 * n, 2)})),
            ('del keys slice', lambda: x.keys().__delitem__(slice(3, n // 2))),
            ('del items step', lambda: x.items().__delitem__(slice(None, None, 4))),
            ('del values', lambda: x.values().__delitem__(slice(-n // 4, None))),
            ('|=', lambda: x.__ior__({i: 2 for i in range(n)})),
            ('popitem', lambda: [x.popitem(i % len(x)) for i in range(n // 3)]),
            ('setdefault', lambda: [x.setdefault(i) for i in range(2 * n)]),
            ('clear', lambda: x.clear()),
            ('set', lambda: [x.__setitem__(i * 7 % n, i) for i in range(n)]),
        ]
    for name, f in steps:
        f()
        chk(name)
    for i in range(len(x)):
        p = (i * 11) % len(x)
        if what == 'set':
            x.pop(p) if i % 2 else x.remove(x[p])
        elif i % 2:
            x.popitem(p)
        else:
            del x[x.keys()[p]]
        if n < 300 or i % 50 == 0:
            chk('drain %d' % i)
        if not x:
            break


def subload_case(case, st):
    """A load factor set by a subclass, then changed with _reset: grown and drained in
    several patterns, the structure judged at every step."""
    kind, default, loads, how, n = case
    k = KINDS[kind]
    cls = type('Sub', (SortedKeyList if k.keyed else SortedList,),
               {'DEFAULT_LOAD_FACTOR': default})
    x = k.make(cls=cls)
    m = []

    def chk(what):
        m.sort(key=k.okey)
        with Quiet():
            o = outcome(x._check)
        if o[0] == 'err':
            raise Violation('%r: _check after %s' % (case, what), 'passes', fmt(o))
        if len(x) % 7 == 0:
            q_struct(x, list(x), k)
            if list(x) != m:
                raise Violation('%r: contents after %s' % (case, what), m, list(x))
        st.add('transitions')
    order = {'append': list(range(n)), 'prepend': list(range(n))[::-1],
             'spread': [i * 37 % n for i in range(n)],
             'bulk': None}[how]
    for j, load in enumerate(loads):
        if load:
            x._reset(load)
            chk('_reset(%d)' % load)
        if order is None:
            for part in (n, n // 9, 3, n // 2):
                vals = [k.elem(float(i * 7 % 1009 + j)) for i in range(part)]
                x.update(vals)
                m += vals
                chk('update of %d' % part)
        else:
            for i in order:
                v = k.elem(float(i))
                x.add(v)
                m.append(v)
                if i % 5 == 0:
                    x[len(x) // 2]
                chk('add')
        for i in range(2 * len(m) // 3):
            p = (i * 11) % len(x) if how != 'prepend' else 0
            v = x.pop(p)
            m.remove(v)
            chk('pop(%d)' % p)
        y = x.copy()
        z = x + x
        for c in (y, z):
            with Quiet():
                o = outcome(c._check)
            if o[0] == 'err':
                raise Violation('%r: _check of a copy' % (case,), 'passes', fmt(o))
    st.kind(how)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_struct,)
    cov.bfs('list-full', ListSys('list', 4, 13 if deep else 11, opset='full', battery=B,
                                 slices='full' if deep else 'few'))
    cov.bfs('list-core', Resets('list', 4, 24 if deep else 20, battery=B))
    cov.bfs('list-ties', ListSys('list', 4, 12 if deep else 9, distinct=False, kmax=3,
                                 opset='full', battery=B))
    cov.bfs('key-full', ListSys('key', 4, 12 if deep else 10, opset='full', battery=B))
    cov.bfs('key-core', Resets('key', 4, 22 if deep else 18, battery=B))
    cov.bfs('key-ties', ListSys('key', 4, 7 if deep else 5, distinct=False, kmax=2,
                                emax=2, opset='full', battery=B))
    for load in (5, 6, 7):
        cov.bfs('list-load%d' % load, ListSys(
            'list', load, 2 * load + (7 if deep else 6), battery=B))
    cov.bfs('dict', DSys('num', 4, 14 if deep else 11, 'full', battery=(qd,)))
    cov.bfs('dict-key', DSys('key', 4, 11 if deep else 9, 'full', battery=(qd,)))
    cov.bfs('dict-ties', DSys('key', 4, 7 if deep else 5, 'full', emax=3, kmax=2,
                              battery=(qd,)))
    cov.bfs('set', SSys('num', 4, 13 if deep else 10, 'full', battery=(qs,)))
    cov.bfs('set-key', SSys('key', 4, 11 if deep else 9, 'full', battery=(qs,)))
    cov.bfs('set-ties', SSys('key', 4, 6 if deep else 4, 'full', emax=3, kmax=2,
                             battery=(qs,)))
    cov.cases('histories', 'growth x shrink x read patterns',
              hist_cases(('list', 'key'), (4, 5, 6, 7, 8, 9) if deep else (4, 5, 7),
                         100 if deep else 60), partial(run_hist, battery=B))
    cov.cases('bulk', 'bulk-built, every position, one operation',
              bulk_cases(('list', 'key'), (4, 5, 8), (9, 17, 33, 65, 130) if deep
                         else (9, 17, 34)), partial(op_case, battery=B))
    cov.cases('default-load', 'default load factor around 1000, 2000, 3000, 4001',
              default_cases(('list', 'key')), partial(op_case, battery=B))
    cov.cases('subclass-load', 'load factor of a subclass, then changed with _reset',
              [(k, d, loads, how, n) for k in ('list', 'key') for d in (4, 5, 9, 40)
               for loads in ((None, 16), (16,), (None, 5), (64, 4), (7, None, 30), (100,))
               for how in ('append', 'prepend', 'spread', 'bulk')
               for n in ((60, 150, 400) if deep else (60, 150))], subload_case)
    cov.cases('big', 'sets and dicts through every bulk call, then drained',
              [(w, load, n, kd) for w in ('set', 'dict')
               for load, n in ((4, 20), (4, 60), (5, 150), (8, 150), (None, 1200),
                               (None, 2600)) for kd in (False, True)], big_case)
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts, nine '
              'operations in every part of them, twice and thrice',
              runs_cases(('list', 'key'), (23, 51, 96, 181, 370) if deep else (23, 51, 96)),
              partial(wide_case, battery=(w_contents, w_check)), timeout=300)
    return cov.result()
