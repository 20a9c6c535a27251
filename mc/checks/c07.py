"""C07 Equal elements keep insertion order; removal takes the first of them."""
from functools import partial

from ..big import hist_cases, op_case, run_hist
from ..core import Cov, Violation, clone
from ..lists import (KINDS, ListSys, check_contents, outcome, q_basic, same)
from ..wide import runs_cases, w_check, w_contents, wide_case


def q_ties(x, m, kind):
    """Identity of what each access path returns, and the derived containers."""
    n = len(m)
    for name, fn, e in (
            ('x[:]', lambda y: y[:], m), ('x.copy()', lambda y: list(y.copy()), m),
            ('x.islice()', lambda y: list(y.islice()), m),
            ('x.irange()', lambda y: list(y.irange()), m),
            ('reversed', lambda y: list(reversed(y)), m[::-1]),
            ('x[::-1]', lambda y: y[::-1], m[::-1]),
            ('x[1:]', lambda y: y[1:], m[1:]),
            ('x * 2', lambda y: list(y * 2), sorted(m * 2, key=kind.okey)),
            ('2 * x', lambda y: list(2 * y), sorted(m * 2, key=kind.okey)),
            ('x * 3', lambda y: list(y * 3), sorted(m * 3, key=kind.okey)),
            ('x._reset(5)', lambda y: (y._reset(5), list(y))[1], m),
            ('x._reset(1000)', lambda y: (y._reset(1000), list(y))[1], m)):
        y = clone(x)
        o = outcome(fn, y)
        if o[0] == 'err' or not same(o[1], e):
            raise Violation('%s: order or identity of equal elements' % name,
                            [(v, id(v)) for v in e],
                            o if o[0] == 'err' else [(v, id(v)) for v in o[1]])
    # new twins of every stored value, appended by each bulk route
    twins = [kind.elem(*kind.code(v)) for v in m]
    for sub in (twins, twins[::-1], twins[:1], twins[-1:]):
        e = sorted(m + sub, key=kind.okey)
        for name, fn in (('x.update(twins)', lambda y: (y.update(sub), list(y))[1]),
                         ('x + twins', lambda y: list(y + sub)),
                         ('x += twins', lambda y: list(y.__iadd__(sub))),
                         ('add each', lambda y: ([y.add(v) for v in sub], list(y))[1])):
            y = clone(x)
            o = outcome(fn, y)
            if o[0] == 'err' or not same(o[1], e):
                raise Violation('%s: order of equal elements' % name,
                                [m.index(v) for v in e], o if o[0] == 'err' else
                                [hex(id(v)) for v in o[1]])
    # removal: the first of each class goes
    for i, v in enumerate(m):
        e = list(m)
        e.remove(v)
        for name in ('remove', 'discard'):
            y = clone(x)
            getattr(y, name)(kind.elem(*kind.code(v)))
            if not same(list(y), e):
                raise Violation('x.%s(twin of x[%d]) removes the first equal one' % (
                    name, i), e, list(y))
        j = x.index(kind.elem(*kind.code(v)))
        if x[j] is not m[m.index(v)]:
            raise Violation('x[x.index(twin of %r)]' % (v,), m.index(v), j)


def grid_case(case, st):
    """n stored, m added by each route, c order classes: stable merge."""
    kind, load, n, mm, c, route = case
    k = KINDS[kind]
    vals = [k.elem(float(i % c), i // c % 2 if k.keyed else 0) for i in range(n)]
    new = [k.elem(float((i * 7 + 1) % c), i % 2 if k.keyed else 0) for i in range(mm)]
    x = k.make()
    x._reset(load)
    for v in vals[:n // 2]:
        x.add(v)
    x.update(vals[n // 2:])
    m = sorted(vals, key=k.okey)
    check_contents(x, m)
    e = sorted(m + new, key=k.okey)
    if route == 'update':
        x.update(new)
    elif route == 'gen':
        x.update(v for v in new)
    elif route == 'iadd':
        x += new
    elif route == 'plus':
        x = x + new
    elif route == 'ctor':
        x = k.make(vals + new)
        e = sorted(vals + new, key=k.okey)
    elif route == 'imul':
        x *= 1 + mm % 4
        e = sorted(m * (1 + mm % 4), key=k.okey)
    check_contents(x, e)
    # drain from the front by value, checking identity at every step
    while e:
        v = e[len(e) // 2]
        e.remove(v)
        x.remove(k.elem(*k.code(v)))
        if len(e) % 3 == 0:
            check_contents(x, e)
    st.kind(route)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_ties,)
    cov.bfs('ties', ListSys('list', 4, 13 if deep else 11, distinct=False, kmax=3,
                            battery=B))
    cov.bfs('one-class', ListSys('list', 4, 24 if deep else 19, distinct=False, kmax=1,
                                 battery=B))
    cov.bfs('ties-key', ListSys('key', 4, 8 if deep else 6, distinct=False, kmax=2,
                                emax=2, battery=B))
    cov.bfs('ties-key3', ListSys('key', 4, 12 if deep else 10, distinct=False, kmax=3,
                                 battery=B))
    cov.bfs('ties-keyasc', ListSys('keyasc', 5, 14 if deep else 11, distinct=False,
                                   kmax=2, battery=B))
    cov.bfs('full-ties', ListSys('list', 4, 12 if deep else 10, distinct=False, kmax=2,
                                 opset='full', battery=(q_basic,)))
    cov.bfs('full-ties-key', ListSys('key', 4, 7 if deep else 6, distinct=False, kmax=2,
                                     emax=2, opset='full', battery=(q_basic,)))
    ns = list(range(0, 27)) + [40, 41, 60]
    ms = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 20]
    cov.cases('bulk-grid', 'n stored x m added x order classes x route',
              [(k, load, n, m, c, r) for k in ('list', 'key') for load in (4, 6)
               for n in ns for m in ms for c in ((1, 2, 5) if deep else (1, 3))
               for r in ('update', 'gen', 'iadd', 'plus', 'ctor', 'imul')], grid_case)
    out = []
    for kind in ('list', 'key'):
        for n in (1000, 1001, 2000, 2001, 4001):
            for a in (0, 1, 499, 999, n // 2, n - 1):
                out.append((kind, None, n, a % 2 == 0, 'addtie', a))
                out.append((kind, None, n, a % 2 == 0, 'remove', a))
                out.append((kind, None, n, a % 2 == 0, 'fill', (a, 1010)))
            for q in (n // 4 - 1, n // 4, n // 4 + 1):
                out.append((kind, None, n, True, 'update', (0.0, 2.0, q)))
    cov.cases('default-load', 'ties at the default load factor', out,
              partial(op_case, battery=()))
    cov.cases('histories', 'growth x shrink x read patterns',
              hist_cases(('list', 'key'), (4,), 60 if deep else 40),
              partial(run_hist, battery=(q_basic,)))
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts, nine '
              'operations in every part of them, twice and thrice',
              runs_cases(('list', 'key'), (23, 51, 96, 181, 370) if deep else (23, 51, 96)),
              partial(wide_case, battery=(w_contents,)), timeout=300)
    return cov.result()
