"""Deep deterministic histories: the finite product of growth, shrink and read
patterns at sizes the breadth-first search does not reach (many segments, deep
positional index, incremental index maintenance), and large bulk-built lists."""
from itertools import product

from .core import Violation, clone
from .lists import (KINDS, SortedKeyList, SortedList, bad, check_contents, fmt,
                    match_err, outcome, q_struct, same, struct_problem)

GROW = ('append', 'prepend', 'middle', 'ends', 'spread', 'third', 'bulk')
SHRINK = ('last', 'first', 'middle', 'ends', 'spread', 'third', 'slices', 'refill')
READS = ('none', 'index', 'bisect', 'late')


def spread(n):
    """0..n-1 in bit-reversed order."""
    b = max(1, (n - 1).bit_length())
    return [r for r in (int(format(i, '0%db' % b)[::-1], 2) for i in range(1 << b))
            if r < n]


def grow_order(pat, n):
    r = list(range(n))
    if pat == 'append':
        return r
    if pat == 'prepend':
        return r[::-1]
    if pat == 'middle':
        return [r[i // 2] if i % 2 == 0 else r[n - 1 - i // 2] for i in range(n)]
    if pat == 'ends':
        mid = n // 2
        out = []
        for i in range(n):
            k = mid + ((i + 1) // 2 if i % 2 else -(i // 2))
            if 0 <= k < n:
                out.append(k)
        return out + [k for k in r if k not in set(out)]
    if pat == 'spread':
        return spread(n)
    if pat == 'third':
        return r[n // 3:2 * n // 3] + r[:n // 3][::-1] + r[2 * n // 3:]
    raise KeyError(pat)


def shrink_pos(pat, n, step):
    """Position to remove next from n elements."""
    if pat == 'last':
        return n - 1
    if pat == 'first':
        return 0
    if pat == 'middle':
        return n // 2
    if pat == 'ends':
        return 0 if step % 2 else n - 1
    if pat == 'spread':
        return (step * 7) % n
    if pat == 'third':
        return n // 3
    raise KeyError(pat)


def hist_cases(kinds=('list', 'key'), loads=(4, 5, 8), n=60, grows=GROW,
               shrinks=SHRINK, reads=READS):
    return list(product(kinds, loads, (n,), grows, shrinks, reads))


class Run:
    """One history with a step-by-step reference."""

    def __init__(self, kind, load, read, battery, st, ties=1):
        self.k = KINDS[kind]
        self.x = self.k.make()
        self.x._reset(load)
        self.m = []
        self.read = read
        self.battery = battery
        self.st = st
        self.nsteps = 0
        self.log = ['x = SortedKeyList(key=%s)' % self.k.key.__name__
                    if self.k.keyed else 'x = SortedList()', 'x._reset(%d)' % load]

    def check(self, got, exp, text):
        if exp[0] == 'err':
            ok = match_err(got, exp[1])
        else:
            ok = got[0] == 'ok' and (got[1] is exp[1])
        if not ok:
            raise Violation(text, fmt(exp), fmt(got), self.log)
        check_contents(self.x, self.m)

    def after(self, full=False):
        x, m = self.x, self.m
        self.st.add('transitions')
        self.nsteps += 1
        n = len(m)
        if n and (self.read == 'index' or self.read == 'late' and n > 30):
            for i in {n // 2, n // 3, n - 1, 0, (2 * n) // 3}:
                if x[i] is not m[i]:
                    raise Violation('x[%d]' % i, m[i], x[i], self.log)
        if n and self.read == 'bisect':
            k = self.k
            for i in {n // 2, n - 1}:
                v = m[i]
                kv = k.okey(v)
                e = i
                while e and not k.okey(m[e - 1]) < kv:
                    e -= 1
                if x.bisect_left(v) != e:
                    raise Violation('x.bisect_left(%r)' % (v,), e, x.bisect_left(v),
                                    self.log)
        if full or self.nsteps % 5 == 0:
            y = clone(x)
            for q in self.battery:
                try:
                    q(y, m, self.k)
                except Violation as v:
                    v.info['pre'] = self.log[:2]
                    v.info['trace'] = self.log[2:]
                    raise

    def add(self, code, e=0):
        v = self.k.elem(float(code), e)
        self.log.append('x.add(%r)' % (v,))
        kv = self.k.okey(v)
        i = len(self.m)
        while i and kv < self.k.okey(self.m[i - 1]):
            i -= 1
        self.m.insert(i, v)
        self.check(outcome(self.x.add, v), ('ok', None), self.log[-1])
        self.after()

    def remove_at(self, i, how):
        x, m = self.x, self.m
        if how == 'pop':
            self.log.append('x.pop(%d)' % i)
            got = outcome(x.pop, i)
            exp = outcome(m.pop, i)
        elif how == 'del':
            self.log.append('del x[%d]' % i)
            got = outcome(x.__delitem__, i)
            exp = outcome(m.__delitem__, i)
        else:
            v = m[i]
            self.log.append('x.%s(%r)' % (how, v))
            got = outcome(getattr(x, how), v)
            m.remove(v)
            exp = ('ok', None)
        self.check(got, exp, self.log[-1])
        self.after()

    def slice_del(self, a, b, c):
        self.log.append('del x[%r:%r:%r]' % (a, b, c))
        del self.m[a:b:c]
        self.check(outcome(self.x.__delitem__, slice(a, b, c)), ('ok', None),
                   self.log[-1])
        self.after(True)

    def update(self, codes):
        vals = [self.k.elem(float(c)) for c in codes]
        self.log.append('x.update(%r)' % (vals,))
        self.m = sorted(self.m + vals, key=self.k.okey)
        self.check(outcome(self.x.update, vals), ('ok', None), self.log[-1])
        self.after(True)


def run_hist(case, st, battery=(q_struct,)):
    kind, load, n, grow, shrink, read = case
    r = Run(kind, load, read, battery, st)
    if grow == 'bulk':
        r.update(range(n))
    else:
        for c in grow_order(grow, n):
            r.add(c)
    hows = ('pop', 'remove', 'del', 'discard')
    step = 0
    if shrink == 'slices':
        for a, b, c in ((3, 7, None), (None, None, 5), (10, 12, None), (-9, -2, None),
                        (None, None, -4), (1, None, 3), (0, 5, None), (2, -2, 2),
                        (None, None, 2), (None, -3, None), (1, None, None)):
            r.slice_del(a, b, c)
            r.add(n + step)
            step += 1
        r.update([-1, -2])
        r.update(range(2 * n, 2 * n + 30))
        r.slice_del(2, 9, 3)
        r.slice_del(None, None, None)
    elif shrink == 'refill':
        # sawtooth: remove a run in the middle, put it back, elsewhere
        for base in (n // 2, n // 4, n - 9, 0):
            for i in range(9):
                r.remove_at(min(base, len(r.m) - 1), hows[step % 4])
                step += 1
            for i in range(13):
                r.add(base + (i * 0.05 if base else -i))
            r.update([base - 0.5, base + 0.5])
    while r.m:
        p = 'first' if shrink in ('slices', 'refill') else shrink
        r.remove_at(shrink_pos(p, len(r.m), step), hows[(step // 3) % 4])
        step += 1
    r.add(1)
    r.add(0)
    r.after(True)
    st.add('states', r.nsteps)
    st.kind('%s/%s' % (grow, shrink))


# --------------------------------------------------------------------------
# big bulk-built lists: every position, one operation, then a battery
# --------------------------------------------------------------------------

def bulk(kind, load, n, built=False, mult=2.0, ties=False, default=False):
    k = KINDS[kind]
    if ties:
        vals = [k.elem(float(i // 3), i % 3 if k.keyed else 0) for i in range(n)]
    else:
        vals = [k.elem(i * mult) for i in range(n)]
    x = k.make()
    if not default:
        x._reset(load)
    x.update(vals)
    m = sorted(vals, key=k.okey)
    if built and n:
        x[n // 2]
        x.bisect_left(m[-1])
    return x, m


def q_some_ints(x, m, kind):
    n = len(m)
    pts = set()
    for b in (0, 1, 2, n // 2, n // 3, n - 1, n - 2, 499, 500, 501, 999, 1000, 1001,
              1499, 1500, 1501, 1999, 2000, 2001, 2999, 3000, 3001, 3999, 4000):
        pts |= {b, b - n, -b}
    for i in sorted(pts):
        o = outcome(x.__getitem__, i)
        if -n <= i < n:
            if o[0] == 'err' or o[1] is not m[i]:
                bad('x[%d] (of %d)' % (i, n), ('ok', m[i]), o)
        elif not match_err(o, IndexError):
            bad('x[%d] (of %d)' % (i, n), ('err', IndexError), o)


def all_ints(x, m):
    n = len(m)
    get = x.__getitem__
    for i in range(-n, n):
        if get(i) is not m[i]:
            bad('x[%d] (of %d)' % (i, n), ('ok', m[i]), ('ok', get(i)))


def boundary(n, seg):
    """Positions at and next to segment boundaries of a bulk-built list."""
    s = {0, 1, n // 2, n - 1, n - 2}
    for q in range(0, n + 1, seg):
        s |= {q - 1, q, q + 1}
    return sorted(i for i in s if 0 <= i < n)


def op_case(case, st, battery=(q_struct,)):
    """(kind, load or None, n, built, op, arg): build, one op, compare."""
    kind, load, n, built, op, arg = case
    k = KINDS[kind]
    x, m = bulk(kind, load or 1000, n, built, default=load is None)
    text = 'bulk %s n=%d load=%s built=%s: %s %s' % (kind, n, load, built, op, arg)

    def chk(got, exp):
        if exp[0] == 'err':
            if not match_err(got, exp[1]):
                raise Violation(text, fmt(exp), fmt(got))
        elif got[0] != 'ok' or got[1] is not exp[1]:
            raise Violation(text, fmt(exp), fmt(got))
    if op == 'add':
        v = k.elem(arg * 2.0 + 1)
        chk(outcome(x.add, v), ('ok', None))
        m = sorted(m + [v], key=k.okey)
    elif op == 'addtie':
        v = k.elem(arg * 2.0)
        chk(outcome(x.add, v), ('ok', None))
        m = sorted(m + [v], key=k.okey)
    elif op == 'pop':
        got = outcome(x.pop, arg)
        chk(got, outcome(m.pop, arg))
    elif op == 'remove':
        v = k.elem(arg * 2.0)
        got = outcome(x.remove, v)
        chk(got, outcome(m.remove, v))
    elif op == 'del':
        got = outcome(x.__delitem__, arg)
        chk(got, outcome(m.__delitem__, arg))
    elif op == 'dels':
        s = slice(*arg)
        del m[s]
        chk(outcome(x.__delitem__, s), ('ok', None))
    elif op == 'update':
        lo, step, cnt = arg
        vals = [k.elem(lo + step * i) for i in range(cnt)]
        chk(outcome(x.update, vals), ('ok', None))
        m = sorted(m + vals, key=k.okey)
    elif op == 'drain':
        # delete cnt at one position, then add cnt there again
        pos, cnt = arg
        for i in range(cnt):
            p = min(pos, len(m) - 1)
            chk(outcome(x.pop, p), ('ok', m.pop(p)))
        for i in range(cnt):
            v = k.elem(pos * 2.0 + 0.25)
            chk(outcome(x.add, v), ('ok', None))
            m.append(v)
        m.sort(key=k.okey)
    elif op == 'fill':
        pos, cnt = arg
        for i in range(cnt):
            v = k.elem(pos * 2.0 + 0.25)
            chk(outcome(x.add, v), ('ok', None))
            m.append(v)
        m.sort(key=k.okey)
    else:
        raise KeyError(op)
    st.add('transitions')
    st.kind(op)
    try:
        check_contents(x, m)
        for q in battery:
            q(x, m, k)
    except Violation as v:
        v.info['pre'] = [text] + list(v.info['pre'])
        raise


def default_cases(kinds=('list', 'key')):
    """Operations at the default load factor, around its thresholds."""
    out = []
    for kind in kinds:
        for n in (999, 1000, 1001, 1999, 2000, 2001, 3000, 4001):
            for built in (False, True):
                pos = boundary(n, 1000)
                for a in pos:
                    out.append((kind, None, n, built, 'add', a))
                    out.append((kind, None, n, built, 'addtie', a))
                    out.append((kind, None, n, built, 'pop', a))
                    out.append((kind, None, n, built, 'remove', a))
                    out.append((kind, None, n, built, 'del', a - n))
                for a in (0, n - 1, n // 2, 999, 1000):
                    out.append((kind, None, n, built, 'drain', (min(a, n - 1), 520)))
                    out.append((kind, None, n, built, 'fill', (min(a, n - 1), 1010)))
                for q in (n // 4 - 1, n // 4, n // 4 + 1, 3, n):
                    out.append((kind, None, n, built, 'update', (1.0, 2.0, q)))
                    out.append((kind, None, n, built, 'update', (2.0 * n, 1.0, q)))
                for s in ((0, n // 8, None), (n // 2, n // 2 + n // 8 + 2, None),
                          (n // 2, n // 2 + n // 8 - 2, None), (None, None, 2),
                          (None, None, -3), (5, n - 5, None), (1000, None, None),
                          (None, 1000, None), (999, 1001, None), (n - 3, None, None)):
                    out.append((kind, None, n, built, 'dels', s))
    return out


def bulk_cases(kinds=('list', 'key'), loads=(4,), ns=(9, 17, 33, 65, 130),
               ops=('add', 'pop', 'remove')):
    out = []
    for kind in kinds:
        for load in loads:
            for n in ns:
                for built in (False, True):
                    for a in range(n):
                        for op in ops:
                            out.append((kind, load, n, built, op, a))
                    if 'add' in ops:
                        out.append((kind, load, n, built, 'add', -1))
    return out
