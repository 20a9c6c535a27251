"""C08 The load factor never changes results: loads are part of the state, and the
same histories run in lock step on lists of different load factors."""
from functools import partial

from ..big import hist_cases, run_hist
from ..core import (Base, Cov, SortedDict, SortedKeyList, SortedList, SortedSet,
                    Violation, clone)
from ..lists import (Kind, ListSys, check_contents, negreal, q_basic, q_light,
                     q_struct)


class ResetSys(ListSys):
    """ListSys in which _reset(load) is an ordinary, expanded operation."""
    LEAVES = {'imul', 'iaddself', 'updself'}
    LOADS = (4, 5, 6, 7, 8)

    def ops(self, x, m):
        for op in super().ops(x, m):
            yield op
        for r in self.LOADS + (9, 1000):
            yield ('reset', r)


class Interned(Kind):
    """One object per element code, so that all lists hold the same objects."""
    table = {}

    def elem(self, k, e=0):
        v = super().elem(k, e)
        return self.table.setdefault((self.name, v), v)


class LockStep(ListSys):
    """The same history on lists with several load factors at once; a reset of one of
    them is an operation too.  All must agree with the reference after every call."""
    LOADS = (4, 5, 7, 1000)
    LEAVES = {'imul', 'iaddself', 'updself'}

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.kind = Interned(self.kind.name)

    def build(self, n):
        k = self.kind
        vals = [k.elem(float(i * 2)) for i in range(n)]
        xs = []
        for load in self.LOADS:
            x = k.make()
            x._reset(load)
            x.update(vals)
            xs.append(x)
        return tuple(xs), sorted(vals, key=k.okey)

    def label(self, n):
        return ['# loads %r in lock step, %d values' % (self.LOADS, n)]

    def observe(self, xs):
        return [list(x) for x in xs]

    def step(self, xs, m, op):
        if op[0] == 'resetone':
            xs[op[1]]._reset(op[2])
            check_contents(xs[op[1]], m)
            return m
        first = None
        for x in xs:
            r = super().step(x, m, op)
            first = r
        return first

    def ops(self, xs, m):
        for op in super().ops(xs[-1], m):
            yield op

    def render(self, op):
        if op[0] == 'resetone':
            return 'xs[%d]._reset(%d)' % op[1:]
        return 'for x in xs: ' + super().render(op)

    def on_state(self, xs, m, st):
        for q in self.battery:
            for x in xs:
                q(clone(x), m, self.kind)
            st.add('batteries')

    def on_leaf(self, xs, m, st):
        st.add('leaves')


def grid_case(case, st):
    """Default, subclass DEFAULT_LOAD_FACTOR, or _reset before/after the values."""
    what, n, mode, load = case
    class L(SortedList):
        DEFAULT_LOAD_FACTOR = load

    class KL(SortedKeyList):
        DEFAULT_LOAD_FACTOR = load
    vals = [float((i * 37) % (n + 1)) for i in range(n)]
    key = None if what in ('list', 'dict', 'set') else negreal
    if what in ('list', 'keylist'):
        if mode == 'subclass':
            x = KL(key=negreal) if key else L()
        else:
            x = SortedList(key=key)
        add = x.add
    elif what == 'set':
        x = SortedSet(key=key)
        add = x.add
    else:
        x = SortedDict(key)

        def add(v):
            x[v] = str(v)
    if mode == 'before':
        x._reset(load)
    m = []
    for i, v in enumerate(vals):
        add(v)
        m.append(v)
        if mode == 'during' and i % 7 == 3:
            x._reset(load + i % 3)
            if i % 2:
                x[m[0]] if what == 'dict' else x[len(m) // 2]
    if mode == 'after':
        x._reset(load)
    m.sort(key=key)
    if mode == 'subclass' and hasattr(x, '_load') and x._load != load and what in (
            'list', 'keylist'):
        raise Violation('DEFAULT_LOAD_FACTOR of the subclass is not used', load, x._load)
    seq = list(x)
    if seq != m or len(x) != n:
        raise Violation('%r contents' % (case,), m, seq)
    for i in range(n):
        g = x.peekitem(i)[0] if what == 'dict' else x[i]
        if g != m[i]:
            raise Violation('%r x[%d]' % (case, i), m[i], g)
        if x.bisect_left(m[i]) != i or x.index(m[i]) != i:
            raise Violation('%r bisect_left/index(%r)' % (case, m[i]), i,
                            (x.bisect_left(m[i]), x.index(m[i])))
    # copies, pickles and + keep working with the subclass load
    import copy
    for y in (copy.copy(x), copy.deepcopy(x)):
        if list(y) != m:
            raise Violation('%r copy' % (case,), m, list(y))
    while m:
        i = len(m) // 3
        g = x.popitem(i)[0] if what == 'dict' else x.pop(i)
        if g != m.pop(i) or list(x) != m:
            raise Violation('%r pop(%d)' % (case, i), m, list(x))
        if mode == 'during' and len(m) % 5 == 0:
            x._reset(load + len(m) % 4)
            if list(x) != m:
                raise Violation('%r _reset' % (case,), m, list(x))
    x._reset(load)
    add(1.0)
    if list(x) != [1.0]:
        raise Violation('%r after emptying' % (case,), [1.0], list(x))
    st.kind(mode)


LARGE = (16, 17, 32, 100, 255, 256, 499, 500, 501, 512, 998, 999, 1000, 1001, 1999,
         2000, 2001, 5000)


def large_case(case, st):
    """The same history under a large load and under the default load: every position,
    slice, search and iterator at every stage is the same."""
    what, load, grow = case
    n = 3 * load + 40 if load < 2500 else 2 * load + 30
    key = negreal if what == 'key' else None
    x = SortedList(key=key)
    x._reset(load)
    m = []

    def check(tag):
        m.sort(key=key)
        size = len(m)
        if len(x) != size or list(x) != m or list(reversed(x)) != m[::-1]:
            raise Violation('%r %s contents' % (case, tag), m, list(x))
        get = x.__getitem__
        if [get(i) for i in range(size)] != m:
            raise Violation('%r %s x[i]' % (case, tag), m, [get(i) for i in range(size)])
        if [get(i) for i in range(-size, 0)] != m:
            raise Violation('%r %s x[-i]' % (case, tag), m)
        bl, br = x.bisect_left, x.bisect_right
        step = 1 if size < 2000 else 3
        marks = {0, 1, size - 1, size - 2, size // 2} | {
            j * q + d for q in (load // 2, load, 1000, 2000) for j in range(1, 4)
            for d in (-1, 0, 1)}
        for i in list(range(0, size, step)) + [j for j in marks if 0 <= j < size]:
            v = m[i]
            if bl(v) != i or br(v) != i + 1 or x.index(v) != i:
                raise Violation('%r %s bisect_left, bisect_right, index of %r' % (
                    case, tag, v), (i, i + 1, i), (bl(v), br(v), x.index(v)))
        for i in marks:
            for j in marks:
                if list(x.islice(i, j)) != m[i:j]:
                    raise Violation('%r %s islice(%d, %d)' % (case, tag, i, j))
                if 0 <= i <= j < size and x[i:j] != m[i:j]:
                    raise Violation('%r %s x[%d:%d]' % (case, tag, i, j))
        st.add('transitions')
    if grow == 'update':
        x.update([float(i) for i in range(n)])
        m = [float(i) for i in range(n)]
        check('update')
        x.update([i + 0.5 for i in range(0, n, 7)])
        m += [i + 0.5 for i in range(0, n, 7)]
    else:
        order = range(n)
        if grow == 'prepend':
            order = range(n - 1, -1, -1)
        elif grow == 'spread':
            order = [i * 37 % n for i in range(n)] if n % 37 else list(range(n))
        for step, i in enumerate(order):
            x.add(float(i))
            m.append(float(i))
            if step in (load // 2, load, load + 1, 2 * load, 2 * load + 1):
                check('add %d' % step)
    check('grown')
    for part in (3, 2):
        while len(m) > n * (part - 1) // 4:
            i = len(m) // part
            if x.pop(i) != m[i]:
                raise Violation('%r pop(%d)' % (case, i), m[i])
            del m[i]
            v = m[i - 1]
            x.remove(v)
            m.remove(v)
            if len(m) > 10:
                del x[1:len(m) // 9 + 2]
                del m[1:len(m) // 9 + 2]
                x.add(m[0])
                m.append(m[0])
                x.discard(m[0])
                m.sort(key=key)
                del m[0]
        check('shrunk %d' % part)
    x._check()


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_basic, q_light, q_struct)
    cov.bfs('reset-anywhere', ResetSys('list', 4, 12 if deep else 11, battery=B))
    cov.bfs('reset-anywhere-key', ResetSys('key', 4, 11 if deep else 10, battery=B))
    cov.bfs('reset-anywhere-ties', ResetSys('key', 4, 7 if deep else 5, distinct=False,
                                            kmax=2, emax=2, battery=B))
    cov.bfs('lock-step', LockStep('list', 4, 14 if deep else 12, battery=(q_light,)))
    cov.bfs('lock-step-key', LockStep('key', 4, 12 if deep else 10, battery=(q_light,)))
    cov.bfs('lock-step-full', LockStep('list', 4, 9 if deep else 7, opset='full',
                                       battery=(q_light,)), max_levels=4)
    for load in (5, 6, 7, 8, 9):
        cov.bfs('core-load%d' % load, ListSys(
            'list', load, 2 * load + (6 if deep else 4), battery=B))
    cov.cases('defaults', 'list/key list/set/dict x n x when and how the load is set',
              [(w, n, mode, load) for w in ('list', 'keylist', 'set', 'dict')
               for n in list(range(0, 30)) + [50, 80]
               for mode in ('subclass', 'before', 'during', 'after', 'default')
               for load in (4, 5, 8, 17)], grid_case)
    cov.cases('histories', 'growth x shrink x read patterns for many loads',
              hist_cases(('list', 'key'), (4, 5, 6, 7, 8, 13, 1000) if deep
                         else (4, 5, 6, 9, 1000), 70 if deep else 40),
              partial(run_hist, battery=(q_light, q_struct)))
    cov.cases('large', 'large loads: every position, bisect, index and slice at every '
              'stage of three growth orders and two shrinks',
              [(w, load, g) for load in LARGE for w in ('list', 'key')
               for g in ('update', 'append', 'prepend', 'spread')], large_case)
    return cov.result()
