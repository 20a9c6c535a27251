"""C10 Element lookups and insertions take logarithmically many comparisons."""
from functools import total_ordering
from math import log2

from ..big import grow_order, shrink_pos
from ..core import Cov, SortedDict, SortedKeyList, SortedList, SortedSet, Violation

N = [0]


class E:
    """An element that counts the comparisons made on it."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        N[0] += 1
        return self.v < o.v

    def __le__(self, o):
        N[0] += 1
        return self.v <= o.v

    def __gt__(self, o):
        N[0] += 1
        return self.v > o.v

    def __ge__(self, o):
        N[0] += 1
        return self.v >= o.v

    def __eq__(self, o):
        N[0] += 1
        return self.v == o.v

    def __ne__(self, o):
        N[0] += 1
        return self.v != o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'E(%r)' % (self.v,)


def ident(e):
    return e


def negkey(e):
    return E(-e.v)


def build(what, load, n, grow):
    key = {'list': None, 'key': ident, 'neg': negkey, 'set': None, 'setkey': negkey,
           'dict': None, 'dictkey': negkey}[what]
    if what == 'list':
        x = SortedList()
    elif what in ('key', 'neg'):
        x = SortedKeyList(key=key)
    elif what in ('set', 'setkey'):
        x = SortedSet(key=key)
    else:
        x = SortedDict(key)
    if load:
        x._reset(load)
    vals = [E(2 * i) for i in range(n)]
    if grow == 'bulk':
        x.update({v: 1 for v in vals} if 'dict' in what else vals)
    else:
        for step, i in enumerate(grow_order(grow, n)):
            N[0] = 0
            if 'dict' in what:
                x[vals[i]] = 1
            else:
                x.add(vals[i])
            if N[0] > 12 and N[0] > 4 * log2(step + 2) + 12:
                raise Violation('insertion number %d (%s) makes %d comparisons, %r' % (
                    step, grow, N[0], (what, load, n)),
                    'at most %.0f' % (4 * log2(step + 2) + 12), N[0])
    return x


def find(x, p, args):
    """index, with its refusal (which costs comparisons too) as None."""
    try:
        return x.index(p, *args)
    except ValueError:
        return None


def run_case(case, st):
    what, load, n, grow, shrink = case
    x = build(what, load, n, grow)
    isd, iss = 'dict' in what, 'set' in what
    view = x.keys() if isd else x
    vals = [e.v for e in view]
    if shrink:
        # half of the values leave, position by position
        for step in range(n // 2):
            i = shrink_pos(shrink, len(vals), step)
            N[0] = 0
            if isd:
                x.popitem(i)
            else:
                x.pop(i)
            if N[0] > 8 and (not isd or N[0] > 4 * log2(len(vals) + 2) + 12):
                raise Violation('removal of position %d of %d makes %d comparisons, %r' %
                                (i, len(vals), N[0], case), 'a few', N[0])
            vals.pop(i)
    m = len(vals)
    limit = 4 * log2(m + 2) + 12
    worst = {}

    def count(name, fn, lim=limit):
        N[0] = 0
        r = fn()
        c = N[0]
        worst[name] = max(worst.get(name, 0), c)
        if c > lim:
            raise Violation('%s on %d values makes %d comparisons, %r' % (
                name, m, c, case), 'at most %.0f' % lim, c)
        st.add('transitions')
        return r
    stride = 1 if m <= 260 else max(1, m // 150)
    for i in sorted(set(range(0, m, stride)) | {m - 1, m // 2, 0}):
        if not 0 <= i < m:
            continue
        v = vals[i]
        for probe in (v, v + 1, v - 1):
            p = E(probe)
            present = probe == v
            count('in', lambda: p in x)
            count('bisect_left', lambda: x.bisect_left(p))
            count('bisect_right', lambda: x.bisect_right(p))
            count('bisect', lambda: x.bisect(p))
            if not isd:
                count('count', lambda: x.count(p))
                count('discard/absent' if not present else 'discard',
                      lambda: x.discard(p))
                if present:
                    count('add', lambda: x.add(p))
            for args in ((), (0, m), (-m, i + 1), (i,), (i + 1,), (i + 1, m), (0, i),
                         (m // 2,), (0, m // 2), (i + 1, m // 2), (m // 3, 2 * m // 3),
                         (-1,), (-m // 2, -1)):
                r = count('index', lambda: find(x, p, args))
                if present and r is None and i in range(m)[slice(*(args + (0, m)[len(args):]))]:
                    raise Violation('index%r of a present value' % (args,), i,
                                    'ValueError')
            if present:
                if isd:
                    count('del', lambda: x.__delitem__(p))
                    count('set', lambda: x.__setitem__(p, 0))
                    count('set again', lambda: x.__setitem__(E(probe), 0))
                    count('get', lambda: x[E(probe)])
                    count('pop', lambda: x.pop(E(probe)))
                    count('setdefault', lambda: x.setdefault(E(probe), 0))
                else:
                    count('remove', lambda: x.remove(p))
                    count('add', lambda: x.add(p))
            elif isd:
                count('set new', lambda: x.__setitem__(p, 0))
                count('del new', lambda: x.__delitem__(E(probe)))
            else:
                count('add new', lambda: x.add(p))
                count('remove new', lambda: x.remove(E(probe)))
                try:
                    count('remove absent', lambda: x.remove(p))
                except (ValueError, KeyError):
                    pass
        # by position: no comparison that grows with n
        flat = 6
        count('[i]', lambda: view[i], flat)
        count('[-i]', lambda: view[i - m], flat)
        count('islice', lambda: next(x.islice(i)), flat)
        if isd:
            count('peekitem', lambda: x.peekitem(i), flat)
            k, w = x.peekitem(i)
            count('popitem', lambda: x.popitem(i), limit)
            x[k] = w
        else:
            k = count('pop(i)', lambda: x.pop(i), flat + 2)
            x.add(k)
            if not iss:
                count('del [i]', lambda: x.__delitem__(i), flat)
                x.add(k)
    st.add('states')
    for k, c in worst.items():
        st.kind('%s<=%d' % (k, 8 * (c // 8 + 1)))
    if [e.v for e in view] != vals:
        raise Violation('contents after the probes %r' % (case,), vals,
                        [e.v for e in view])


def runs_case(case, st):
    """Long runs of equal values without key function: searching stays logarithmic,
    whether or not anything was indexed before, at every place of the run."""
    what, load, reps, warm = case
    x = SortedList() if what == 'list' else SortedKeyList(key=ident)
    if load:
        x._reset(load)
    vals = [v for v, r in enumerate(reps) for _ in range(r)]
    x.update([E(v) for v in vals])
    m = len(vals)
    limit = 4 * log2(m + 2) + 12

    def count(name, fn):
        if not warm:
            # forget what a read may have built: add and remove at the end
            y = SortedList() if what == 'list' else SortedKeyList(key=ident)
            y._reset(load or 1000)
            y.update(x)
        else:
            y = x
            x[m // 2]
        N[0] = 0
        r = fn(y)
        if N[0] > limit:
            raise Violation('%s makes %d comparisons, runs %r' % (name, N[0], case),
                            'at most %.0f' % limit, N[0])
        st.add('transitions')
        return r
    for v in range(len(reps)):
        lo = vals.index(v) if v in vals else None
        for p in (E(v), E(v - 0.5)):
            for name, fn in (('bisect_left', lambda y: y.bisect_left(p)),
                             ('bisect_right', lambda y: y.bisect_right(p)),
                             ('irange', lambda y: next(y.irange(p), None)),
                             ('irange excl', lambda y: next(
                                 y.irange(None, p, (True, False), True), None)),
                             ('add', lambda y: y.add(p) or y.__delitem__(
                                 y.bisect_right(p) - 1))):
                count(name, fn)
            if what == 'list':
                count('in', lambda y: p in y)
                if count('count', lambda y: y.count(p)) != vals.count(p.v):
                    raise Violation('count(%r) of %r' % (p, case), vals.count(p.v))
                for args in ((), (0,), (m // 2,), (m // 3, m - 1), (-2,), (0, 1),
                             (0, -1)):
                    count('index', lambda y: find(y, p, args))
                count('discard', lambda y: y.discard(p))
                if lo is not None and warm and p.v == v:
                    x.add(E(v))
    st.add('states')


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    kinds = ('list', 'key', 'neg', 'set', 'setkey', 'dict', 'dictkey')
    cases = []
    for what in kinds:
        for load in (4, 5, 16):
            for n in (1, 2, 9, 40, 200, 520) + ((1500,) if deep else ()):
                for grow in ('append', 'prepend', 'spread', 'middle', 'bulk'):
                    for shrink in (None, 'first', 'last', 'middle', 'spread', 'ends'):
                        if n < 9 and shrink:
                            continue
                        if not deep and n == 520 and (load == 5 or grow == 'middle'):
                            continue
                        cases.append((what, load, n, grow, shrink))
        for n in (150, 1100, 2100, 3600) + ((9000,) if deep else ()):
            for grow in ('append', 'prepend', 'spread', 'bulk'):
                for shrink in (None, 'first', 'middle', 'last'):
                    cases.append((what, None, n, grow, shrink))
    cov.cases('comparisons', 'container x load x size x growth x shrink: every '
              'position/probe (150 positions of the larger ones), every operation, '
              'comparisons <= 4*log2(n+2)+12, by position constant', cases, run_case)
    cov.cases('runs', 'runs of equal values of every length around the load, indexed '
              'or not', [(w, load, (a, b, c), warm) for w in ('list', 'key')
                         for load, ls in ((4, (0, 1, 3, 4, 9, 60, 200)), (16, (0, 5, 70,
                                          300)), (None, (0, 3, 1200, 2500)))
                         for a in ls for b in ls for c in ls if a + b + c
                         if load or 0 < a + b + c < 4000
                         for warm in (False, True)], runs_case)
    return cov.result(['comparison counts only; the cost of moving elements is out of '
                       'scope'])
