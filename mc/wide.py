"""Lists of many segments (16 to 1024 of them), laid out in three ways, with and without
a positional index: one operation at every one of a set of positions that covers every
part of the index tree, what the check looks at, a second operation far away, and again."""
from .core import HarnessError, Violation, clone
from .lists import (KINDS, bad, check_contents, fmt, match_err, outcome, same)


def layouts(kind, n, layout):
    """A list of n values over many segments at load 4, laid out in one of three ways."""
    k = KINDS[kind]
    x = k.make()
    x._reset(4)
    if layout.startswith('runs'):
        # long runs of ties (keyed: of three unequal values) between single values
        vals, c, g = [], 0, 0
        while len(vals) < n:
            size = (1, 13, 1, 1, 22, 2, 9, 1, 30, 1, 5)[g % 11]
            size = min(size, n - len(vals))
            vals += [k.elem(2.0 * g, i % 3 if k.keyed else 0) for i in range(size)]
            g += 1
        if layout == 'runs-bulk':
            x.update(vals)
        elif layout == 'runs-add':
            for i in range(n):
                x.add(vals[i * 31 % n])
        else:
            # twice as many, then every other of them goes, unevenly
            x.update(vals + vals[::-1])
            i = 0
            while len(x) > n:
                i = (i + 3 + len(x) % 4) % len(x)
                x.pop(i)
        return x, list(x)
    if layout == 'bulk':
        x.update([k.elem(float(2 * i)) for i in range(n)])
    elif layout == 'spread':
        for i in range(n):
            x.add(k.elem(float(2 * (i * 37 % n))))
    else:
        x.update([k.elem(float(2 * i)) for i in range(2 * n)])
        for i in range(2 * n):
            if len(x) > n and i % 8 in (1, 2, 4, 7):
                x.remove(k.elem(float(2 * i)))
        while len(x) > n:
            x.pop(0)
    return x, list(x)


def positions(n, many):
    s = {0, 1, 2, n - 1, n - 2, n // 2, n // 3}
    s |= set(range(0, n, max(1, n // many)))
    b = 4
    while b < n:
        s |= {b - 1, b, b + 1, n - b}
        b *= 2
    return sorted(i for i in s if 0 <= i < n)


OPS = ('add', 'tie', 'remove', 'pop', 'fill', 'drain', 'cut', 'update', 'del-1')


def do(x, m, k, op, a, text, st):
    """One operation at position a of the list x (m is the same plain list)."""
    def chk(got, exp):
        if got[0] != 'ok' or got[1] is not exp:
            raise Violation(text, fmt(('ok', exp)), fmt(got))
    st.add('transitions')
    a %= len(m)
    v = m[a]
    r = v.real
    if op == 'add':
        vs = [k.elem(r + 1.0)]
        chk(outcome(x.add, vs[0]), None)
    elif op == 'tie':
        vs = [k.elem(r, 5)]
        chk(outcome(x.add, vs[0]), None)
    elif op == 'remove':
        vs = []
        chk(outcome(x.remove, v), None)
        m.remove(v)
    elif op == 'pop':
        vs = []
        e = m.pop(a)
        chk(outcome(x.pop, a), e)
    elif op == 'del-1':
        vs = []
        n = len(m)
        del m[a]
        chk(outcome(x.__delitem__, a - n), None)
    elif op == 'fill':
        vs = [k.elem(r + 0.1 * i) for i in range(1, 11)]
        for w in vs:
            chk(outcome(x.add, w), None)
    elif op == 'drain':
        vs = []
        for i in range(min(7, len(m) - 1)):
            p = min(a, len(m) - 1)
            e = m.pop(p)
            chk(outcome(x.pop, p), e)
    elif op == 'cut':
        vs = []
        s = slice(a, a + 6)
        del m[s]
        chk(outcome(x.__delitem__, s), None)
    else:
        vs = [k.elem(r + 0.3), k.elem(m[0].real - 1.0), k.elem(m[-1].real + 1.0)]
        chk(outcome(x.update, list(vs)), None)
    for w in vs:
        kw = k.okey(w)
        lo, hi = 0, len(m)
        while lo < hi:
            mid = (lo + hi) // 2
            if kw < k.okey(m[mid]):
                hi = mid
            else:
                lo = mid + 1
        m.insert(lo, w)


def wide_case(case, st, battery=()):
    kind, n, layout, warm, op = case
    k = KINDS[kind]
    base, m0 = layouts(kind, n, layout)
    if len(m0) != n:
        raise HarnessError('layout', case, len(m0))
    if warm:
        base[n // 2]
    pos = positions(n, 24)
    for i, a in enumerate(pos):
        x, m = clone(base), list(m0)
        t = '%r: %s at %d' % (case, op, a)
        do(x, m, k, op, a, t, st)
        if not m:
            continue
        looks(x, m, k, battery, t)
        b = pos[(i + len(pos) // 2) % len(pos)]
        op2 = OPS[(OPS.index(op) + i) % len(OPS)]
        t += ', then %s at %d' % (op2, b)
        do(x, m, k, op2, b, t, st)
        looks(x, m, k, battery, t)
        for c in (a, 0, -1, b):
            if m:
                t += ', %s at %d' % (op, c)
                do(x, m, k, op, c, t, st)
        if m:
            looks(x, m, k, battery, t)
    st.kind(op)


def looks(x, m, k, battery, text):
    try:
        for q in battery:
            q(x, m, k)
    except Violation as v:
        v.info['pre'] = [text] + list(v.info['pre'])
        raise


# what the checks look at -------------------------------------------------------

def w_contents(x, m, k):
    check_contents(x, m)


def w_read(x, m, k):
    """Positions, slices, islice, reversed over the whole list."""
    n = len(m)
    get = x.__getitem__
    for i in range(0, n, 1 if n < 300 else 3):
        if get(i) is not m[i] or get(i - n) is not m[i]:
            bad('x[%d]' % i, ('ok', m[i]), ('ok', get(i)))
    pts = positions(n, 4)[n > 300::1 + 2 * (n > 300)]
    for i, a in enumerate(pts):
        b = pts[(i * 5 + 3) % len(pts)]
        for s in (slice(a, b), slice(a, None, 3), slice(b, a, -1), slice(a - n, b, 2),
                  slice(None, a, -2), slice(a, a + 9)):
            if not same(x[s], m[s]):
                bad('x[%r]' % (s,), ('ok', m[s]), ('ok', x[s]))
        lo, hi = min(a, b), max(a, b)
        for r in (False, True):
            e = m[lo:hi]
            g = list(x.islice(lo, hi, r))
            if not same(g, e[::-1] if r else e):
                bad('x.islice(%d, %d, %r)' % (lo, hi, r), ('ok', e), ('ok', g))
    if not same(list(reversed(x)), m[::-1]) or not same(x[:], m):
        bad('reversed(x) or x[:]', ('ok', m), ('ok', list(reversed(x))))


def w_find(x, m, k):
    """Every value and every gap looked up (of longer lists every third, at a phase that
    moves with the length)."""
    n = len(m)
    keys = [k.okey(v) for v in m]
    runs = 0
    i = 0
    while i < n:
        j = i
        while j < n and not keys[i] < keys[j]:
            j += 1
        runs += 1
        if n > 300 and (runs + n) % 3 and 8 < i < n - 8:
            i = j
            continue
        v = m[i]
        got = (x.bisect_left(v), x.bisect_right(v), x.index(v), x.count(v), v in x,
               m[j - 1] in x, x.index(m[j - 1]))
        exp = (i, j, i, m[i:j].count(v), True, True, i + m[i:j].index(m[j - 1]))
        if got != exp:
            bad('bisect_left, bisect_right, index, count, in, in, index of %r' % (v,),
                ('ok', exp), ('ok', got))
        if j - i > 1:
            mid = (i + j) // 2
            for u in {m[i], m[mid], m[j - 1]}:
                if x.count(u) != m.count(u) or u not in x:
                    bad('x.count(%r), %r in x' % (u, u), ('ok', (m.count(u), True)),
                        ('ok', (x.count(u), u in x)))
                for a in (i, i + 1, mid, j - 1, j, i - n, mid - n):
                    for b in (n, i, i + 1, mid, j - 1, j, mid - n):
                        lo = a if a >= 0 else max(0, a + n)
                        hi = b if b >= 0 else max(0, b + n)
                        e = next((q for q in range(max(lo, i), min(hi, j)) if m[q] == u),
                                 ValueError)
                        try:
                            g = x.index(u, a, b)
                        except ValueError:
                            g = ValueError
                        if g != e:
                            bad('x.index(%r, %d, %d)' % (u, a, b), ('ok', e), ('ok', g))
        w = k.elem(k.code(v)[0] + 0.05)
        kw = k.okey(w)
        lo, hi = (i, j) if i else (0, j)
        e = j if keys[i] < kw else i
        got = (x.bisect_left(w), x.bisect_right(w), w in x, x.count(w))
        if (e == j and (j == n or kw < keys[j]) or e == i and (
                i == 0 or keys[i - 1] < kw)) and got != (e, e, False, 0):
            bad('bisect_left, bisect_right, in, count of %r' % (w,),
                ('ok', (e, e, False, 0)), ('ok', got))
        if k.keyed and (x.bisect_key_left(keys[i]), x.bisect_key_right(keys[i])) != (
                i, j):
            bad('bisect_key_left/right(%r)' % (keys[i],), ('ok', (i, j)),
                ('ok', (x.bisect_key_left(keys[i]), x.bisect_key_right(keys[i]))))
        i = j


def w_range(x, m, k):
    n = len(m)
    pts = positions(n, 4)[n > 300::1 + 2 * (n > 300)]
    keys = [k.okey(v) for v in m]
    for i, a in enumerate(pts):
        b = pts[(i * 5 + 3) % len(pts)]
        a, b = min(a, b), max(a, b)
        for inc in ((True, True), (False, False), (True, False)):
            for r in (False, True):
                e = [v for v, q in zip(m, keys)
                     if (not q < keys[a] if inc[0] else keys[a] < q)
                     and (not keys[b] < q if inc[1] else q < keys[b])]
                g = list(x.irange(m[a], m[b], inc, r))
                if not same(g, e[::-1] if r else e):
                    bad('x.irange(%r, %r, %r, %r)' % (m[a], m[b], inc, r), ('ok', e),
                        ('ok', g))


def w_check(x, m, k):
    o = outcome(x._check)
    if o[0] == 'err':
        bad('x._check()', ('ok', None), o)


def wide_cases(kinds, ns, ops=OPS):
    return [(kind, n, lay, warm, op) for n in ns[::-1] for kind in kinds
            for lay in ('bulk', 'spread', 'thin') for warm in (False, True)
            for op in ops if not (n % 37 == 0 and lay == 'spread')]


def runs_cases(kinds, ns, ops=OPS):
    return [(kind, n, lay, warm, op) for n in ns[::-1] for kind in kinds
            for lay in ('runs-bulk', 'runs-add', 'runs-thin') for warm in (False, True)
            for op in ops if n % 31]
