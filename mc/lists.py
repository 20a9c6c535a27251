"""The list system: SortedList / SortedKeyList explored against a plain Python
list kept in stable sorted order."""
from operator import is_

from .core import Base, Quiet, SortedKeyList, SortedList, Violation, clone

BIG = 10 ** 6


def negreal(c):
    return -c.real


def realpart(c):
    return c.real


# --------------------------------------------------------------------------
# element kinds
# --------------------------------------------------------------------------

class Kind:
    """How abstract codes (k, e) become elements.  k orders, e only distinguishes
    elements of equal order in keyed lists."""

    def __init__(self, name):
        self.name = name
        self.keyed = name != 'list'
        self.key = {'list': None, 'key': negreal, 'keyasc': realpart}[name]

    def elem(self, k, e=0):
        # a fresh object every time: identity tells equal elements apart
        if self.keyed:
            return complex(k, e)
        return k + 0.0

    def code(self, v):
        return (v.real, v.imag) if self.keyed else (v, 0)

    def okey(self, v):
        """Reference ordering key."""
        return self.key(v) if self.keyed else v

    def make(self, values=None, cls=None):
        if self.keyed:
            return (cls or SortedKeyList)(values, key=self.key)
        return (cls or SortedList)(values)

    def src(self, v):
        return repr(v)


KINDS = {n: Kind(n) for n in ('list', 'key', 'keyasc')}


def same(a, b):
    return len(a) == len(b) and all(map(is_, a, b))


def outcome(fn, *a):
    try:
        return ('ok', fn(*a))
    except Exception as e:
        return ('err', type(e))


def match_err(act, exc):
    return act[0] == 'err' and issubclass(act[1], exc)


def fmt(o):
    if o[0] == 'err':
        return 'raises ' + getattr(o[1], '__name__', str(o[1]))
    return repr(o[1])


# --------------------------------------------------------------------------
# structural invariants (independent of the package's own _check)
# --------------------------------------------------------------------------

STRUCT = ('_lists', '_maxes', '_index', '_offset', '_len', '_load')


def struct_problem(x, key=None):
    """Documented representation invariants (docs/implementation.rst), or None.
    Silently skipped when the documented representation is not there."""
    for a in STRUCT:
        if not hasattr(x, a):
            return None
    L, M, I, load = x._lists, x._maxes, x._index, x._load
    keys = getattr(x, '_keys', None)
    if len(M) != len(L):
        return 'maxes and sublists differ in number'
    if any(not s for s in L):
        return 'empty sublist'
    if x._len != sum(map(len, L)):
        return 'length counter is wrong'
    if keys is not None:
        if list(map(len, keys)) != list(map(len, L)):
            return 'keys and values sublists differ in length'
        for ks, vs in zip(keys, L):
            if key is not None and list(map(key, vs)) != ks:
                return 'cached keys are not the keys of the values'
    K = keys if keys is not None else L
    flat = [k for s in K for k in s]
    if any(flat[i + 1] < flat[i] for i in range(len(flat) - 1)):
        return 'not sorted'
    for m, s in zip(M, K):
        if m != s[-1]:
            return 'maxes entry is not the last of its sublist'
    if any(len(s) > 2 * load for s in L):
        return 'sublist longer than twice the load factor'
    if any(len(s) < load // 2 for s in L[:-1]):
        return 'sublist shorter than half the load factor'
    if I:
        off = x._offset
        if I[0] != x._len:
            return 'positional index root is not the length'
        if I[off:] != list(map(len, L)):
            return 'positional index leaves are not the sublist lengths'
        n = len(I)
        for p in range(off):
            c = 2 * p + 1
            tot = (I[c] if c < n else 0) + (I[c + 1] if c + 1 < n else 0)
            if I[p] != tot:
                return 'positional index node is not the sum of its children'
    return None


def q_struct(x, m, kind):
    p = struct_problem(x, kind.key)
    if p:
        raise Violation('internal consistency broken: ' + p, 'consistent',
                        {a: getattr(x, a, None) for a in STRUCT})
    if hasattr(x, '_check'):
        with Quiet():
            o = outcome(x._check)
        if o[0] == 'err':
            raise Violation('x._check() fails', 'passes', fmt(o))


def check_contents(x, m):
    """Iteration and length agree with the reference, element by element and by
    identity (so the order of equal elements is checked too)."""
    got = list(x)
    if not same(got, m):
        what = 'contents differ'
        if got == m:
            what = 'order (or identity) of equal elements differs'
        raise Violation('list(x): ' + what, m, got)
    if len(x) != len(m):
        raise Violation('len(x)', len(m), len(x))


# --------------------------------------------------------------------------
# query batteries: every read against the reference list
# --------------------------------------------------------------------------

def bad(text, exp, act):
    raise Violation(text, fmt(exp), fmt(act))


def probe_values(m, kind, ties=True):
    """Every stored order code, every gap, and (keyed) an unequal twin."""
    ks = sorted({kind.code(v)[0] for v in m})
    gaps = ([ks[0] - 1.0] + [(a + b) / 2 for a, b in zip(ks, ks[1:])] +
            [ks[-1] + 1.0]) if ks else [0.0]
    out = []
    for k in sorted(ks + gaps):
        out.append(kind.elem(k, 0))
        if kind.keyed and ties:
            out.append(kind.elem(k, 1))
            out.append(kind.elem(k, 7))
    return out


def q_light(x, m, kind):
    """All integer positions, then bisect at every stored value."""
    n = len(m)
    for i in range(-n, n):
        o = outcome(x.__getitem__, i)
        if o[0] == 'err' or o[1] is not m[i]:
            bad('x[%d]' % i, ('ok', m[i]), o)
    keys = [kind.okey(v) for v in m]
    for i, v in enumerate(m):
        o = outcome(x.bisect_left, v)
        e = keys.index(keys[i])
        if o != ('ok', e):
            bad('x.bisect_left(%r)' % (v,), ('ok', e), o)


def q_basic(x, m, kind):
    """Iteration, reverse iteration, truth, membership, all positions."""
    n = len(m)
    for txt, fn, exp in (
            ('list(x)', lambda: list(x), m),
            ('list(reversed(x))', lambda: list(reversed(x)), m[::-1]),
            ('[e for e in iter(x)]', lambda: [e for e in iter(x)], m)):
        o = outcome(fn)
        if o[0] == 'err' or not same(o[1], exp):
            bad(txt, ('ok', exp), o)
    if bool(x) != bool(m):
        bad('bool(x)', ('ok', bool(m)), ('ok', bool(x)))
    if len(x) != n:
        bad('len(x)', ('ok', n), ('ok', len(x)))
    for v in probe_values(m, kind):
        o = outcome(x.__contains__, v)
        if o != ('ok', v in m):
            bad('%r in x' % (v,), ('ok', v in m), o)
    q_ints(x, m, kind)


def q_ints(x, m, kind, only=None):
    n = len(m)
    rng = list(range(-n - 2, n + 2)) + [BIG, -BIG]
    for i in rng:
        o = outcome(x.__getitem__, i)
        if -n <= i < n:
            if o[0] == 'err' or o[1] is not m[i]:
                bad('x[%d]' % i, ('ok', m[i]), o)
        elif not match_err(o, IndexError):
            bad('x[%d]' % i, ('err', IndexError), o)


def q_each_int_cold(x, m, kind):
    """Every position as the very first read (index not yet built by another)."""
    n = len(m)
    for i in range(-n - 1, n + 1):
        y = clone(x)
        o = outcome(y.__getitem__, i)
        if -n <= i < n:
            if o[0] == 'err' or o[1] is not m[i]:
                bad('x[%d]' % i, ('ok', m[i]), o)
        elif not match_err(o, IndexError):
            bad('x[%d]' % i, ('err', IndexError), o)


def slice_domain(n, marks=None):
    pts = [None] + (list(range(-n - 2, n + 3)) if marks is None else marks)
    steps = sorted({1, 2, 3, -1, -2, -3, n, -n, n + 1, -n - 1} - {0})
    return pts, [None] + steps


def q_slices(x, m, kind, marks=None):
    """Every slice over the domain."""
    n = len(m)
    pts, steps = slice_domain(n, marks)
    get = x.__getitem__
    for a in pts:
        for b in pts:
            for c in steps:
                s = slice(a, b, c)
                e = m[s]
                try:
                    r = get(s)
                except Exception as ex:
                    bad('x[%r:%r:%r]' % (a, b, c), ('ok', e), ('err', type(ex)))
                if type(r) is not list or len(r) != len(e) or not all(map(is_, r, e)):
                    bad('x[%r:%r:%r]' % (a, b, c), ('ok', e), ('ok', r))


def marks_for(n, seglen=4):
    """Positions next to every multiple of the chunk length, and the ends."""
    s = set()
    for q in range(0, n + 1, seglen):
        s |= {q - 1, q, q + 1}
    s |= {0, 1, n - 1, n, n + 1}
    s = sorted(i for i in s if 0 <= i <= n + 1)
    return s + [-1, -2, -n, -n - 1, -(n // 2), BIG, -BIG]


def q_islice(x, m, kind, marks=None):
    n = len(m)
    pts = [None] + (list(range(-n - 2, n + 3)) if marks is None else marks)
    for a in pts:
        for b in pts:
            e = m[a:b]
            for rev in (False, True):
                o = outcome(lambda: list(x.islice(a, b, rev)))
                ee = e[::-1] if rev else e
                if o[0] == 'err' or not same(o[1], ee):
                    bad('list(x.islice(%r, %r, %r))' % (a, b, rev), ('ok', ee), o)
    o = outcome(lambda: list(x.islice()))
    if o[0] == 'err' or not same(o[1], m):
        bad('list(x.islice())', ('ok', m), o)


def q_search(x, m, kind, stops=True):
    """bisect*, count, contains for every probe; index for every start/stop."""
    n = len(m)
    keys = [kind.okey(v) for v in m]
    xs = [x, clone(x), clone(x), clone(x), clone(x), clone(x)]
    for v in probe_values(m, kind):
        k = kind.okey(v)
        bl = sum(1 for e in keys if e < k)
        br = sum(1 for e in keys if not k < e)
        checks = [('bisect_left', xs[0], v, bl), ('bisect_right', xs[1], v, br),
                  ('bisect', xs[1], v, br), ('count', xs[2], v, m.count(v)),
                  ('__contains__', xs[3], v, v in m)]
        if kind.keyed:
            checks += [('bisect_key_left', xs[4], k, bl),
                       ('bisect_key_right', xs[4], k, br),
                       ('bisect_key', xs[4], k, br)]
        for name, y, a, e in checks:
            o = outcome(getattr(y, name), a)
            if o != ('ok', e):
                bad('x.%s(%r)' % (name, a), ('ok', e), o)
        y = xs[5]
        o = outcome(y.index, v)
        e = outcome(m.index, v)
        if (e[0] == 'err' and not match_err(o, ValueError)) or (
                e[0] == 'ok' and o != e):
            bad('x.index(%r)' % (v,), e, o)
        if not stops:
            continue
        pts = [None] + list(range(-n - 1, n + 2))
        pos = [i for i, w in enumerate(m) if w == v]
        for a in pts:
            lo = 0 if a is None else a
            if lo < 0:
                lo = max(0, lo + n)
            for b in pts:
                hi = n if b is None else b
                if hi < 0:
                    hi += n
                try:
                    r = y.index(v, a, b)
                except ValueError:
                    r = None
                except Exception as ex:
                    r = type(ex)
                e = None
                for i in pos:
                    if lo <= i < hi:
                        e = i
                        break
                if r != e:
                    bad('x.index(%r, %r, %r)' % (v, a, b),
                        ('ok', e) if e is not None else ('err', ValueError),
                        ('ok', r))


def q_range(x, m, kind, full=True):
    """irange (and irange_key) for every pair of bounds, inclusiveness, direction."""
    keys = [kind.okey(v) for v in m]
    pv = [None] + probe_values(m, kind, ties=False)
    if kind.keyed and m:
        pv.append(kind.elem(kind.code(m[0])[0], 7))
    for lo in pv:
        kl = None if lo is None else kind.okey(lo)
        for hi in pv:
            kh = None if hi is None else kind.okey(hi)
            for il in (True, False):
                for ih in (True, False):
                    a = 0
                    if kl is not None:
                        for q in keys:
                            if q < kl or (not il and not kl < q):
                                a += 1
                            else:
                                break
                    b = len(m)
                    if kh is not None:
                        while b and (kh < keys[b - 1] or (
                                not ih and not keys[b - 1] < kh)):
                            b -= 1
                    e = m[a:b] if a < b else []
                    er = e[::-1]
                    for rev in (False, True):
                        ee = er if rev else e
                        try:
                            r = list(x.irange(lo, hi, (il, ih), rev))
                        except Exception as ex:
                            bad('list(x.irange(%r, %r, (%r, %r), %r))' % (
                                lo, hi, il, ih, rev), ('ok', ee), ('err', type(ex)))
                        if len(r) != len(ee) or not all(map(is_, r, ee)):
                            bad('list(x.irange(%r, %r, (%r, %r), %r))' % (
                                lo, hi, il, ih, rev), ('ok', ee), ('ok', r))
                        if kind.keyed:
                            o = outcome(lambda: list(
                                x.irange_key(kl, kh, (il, ih), rev)))
                            if o[0] == 'err' or not same(o[1], ee):
                                bad('list(x.irange_key(%r, %r, (%r, %r), %r))' % (
                                    kl, kh, il, ih, rev), ('ok', ee), o)
    o = outcome(lambda: list(x.irange()))
    if o[0] == 'err' or not same(o[1], m):
        bad('list(x.irange())', ('ok', m), o)


# --------------------------------------------------------------------------
# operations
# --------------------------------------------------------------------------

class ListSys(Base):

    def __init__(self, kind='list', load=4, nmax=10, distinct=True, kmax=None,
                 emax=1, opset='core', battery=(), seeds=(0,), maxbatch=3,
                 slices='few', leaf_battery=None, keep=None):
        self.kind = KINDS[kind]
        self.load = load
        self.nmax = nmax
        self.distinct = distinct
        self.kmax = kmax
        self.emax = emax
        self.opset = opset
        self.battery = battery
        self.seeds = seeds
        self.maxbatch = maxbatch
        self.slices = slices
        self.leaf_battery = (q_light, q_struct) if leaf_battery is None else leaf_battery
        self.keep = keep

    # -- system interface ---------------------------------------------------

    def describe(self):
        return ('%s load %d: all histories over the %s alphabet with at most %d '
                'elements%s, seeds %s' % (
                    self.kind.name, self.load, self.opset, self.nmax,
                    ', distinct' if self.distinct else
                    ', ties (%s order classes, %d variants)' % (self.kmax, self.emax),
                    list(self.seeds)))

    def label(self, n):
        k = self.kind
        vals = [k.elem(float(i * 2)) for i in range(n)]
        if k.keyed:
            lines = ['x = SortedKeyList(key=%s); x._reset(%d); x.update(%r)' % (
                k.key.__name__, self.load, vals)]
        else:
            lines = ['x = SortedList(); x._reset(%d); x.update(%r)' % (
                self.load, vals)]
        return lines

    def build(self, n):
        k = self.kind
        vals = [k.elem(float(i * 2)) for i in range(n)]
        x = k.make()
        x._reset(self.load)
        x.update(vals)
        return x, sorted(vals, key=k.okey)

    def initial(self):
        out = []
        self._fresh = {}
        for n in self.seeds:
            x, m = self.build(n)
            lab = self.label(n)
            self._fresh[tuple(lab)] = n
            out.append((lab, x, m))
        return out

    def fresh(self, label):
        return self.build(self._fresh[tuple(label)])

    def observe(self, x):
        return (list(x), len(x))

    def expand(self, m):
        return len(m) <= self.nmax

    def valmap(self, m):
        """Dense ranks: the code only compares elements (data independence)."""
        k = self.kind
        if not k.keyed:
            vm = {}
            for v in m:
                if v not in vm:
                    vm[v] = float(len(vm))
            return vm
        vm = {}
        rk = {}
        for v in m:
            ky = k.key(v)
            if ky not in rk:
                rk[ky] = len(rk)
            vm[v] = (rk[ky], v.imag)
        vm['F'] = {ky: ('k', r) for ky, r in rk.items()}
        return vm

    def codes(self, m):
        """Distinct order codes present and the gap codes around them."""
        ks = sorted({self.kind.code(v)[0] for v in m})
        if not ks:
            return [], [0.0]
        gaps = [ks[0] - 1.0]
        gaps += [(a + b) / 2 for a, b in zip(ks, ks[1:])]
        gaps.append(ks[-1] + 1.0)
        return ks, gaps

    def ops(self, x, m):
        n = len(m)
        ks, gaps = self.codes(m)
        E = range(self.emax)
        core = self.opset
        # additions
        if n <= self.nmax:
            if self.kmax is None or len(ks) < self.kmax:
                for g in gaps:
                    yield ('add', g, 0)
            if not self.distinct:
                for k in ks:
                    for e in E:
                        yield ('add', k, e)
        # removals
        for i in range(n):
            yield ('pop', i)
        yield ('touch', n // 2)
        if core == 'core':
            return
        if n:
            yield ('touchb', ks[-1])
        for k in ks:
            for e in E:
                yield ('remove', k, e)
                yield ('discard', k, e)
        for g in gaps:
            yield ('remove', g, 0)
            yield ('discard', g, 0)
        yield ('pop',)
        for i in list(range(-n - 2, 0)) + [n, n + 1, BIG, -BIG]:
            yield ('pop', i)
        for i in range(-n - 2, n + 2):
            yield ('del', i)
        yield ('clear',)
        for s in self.slice_ops(n):
            yield ('dels',) + s
        for r in (4, 5, 7, 1000):
            yield ('reset', r)
        for r in (0, 1, 2, -1):
            if n * max(r, 0) <= self.nmax * 2:
                yield ('imul', r)
        for b in self.batches(ks, gaps):
            yield ('update', b)
        b = [(gaps[0], 0), (gaps[-1], 0)]
        yield ('iadd', tuple(b))
        yield ('iadd', ())
        yield ('iaddself',)
        yield ('updself',)

    def slice_ops(self, n):
        full = self.slices == 'full'
        pts = [None] + list(range(0, n + 1)) if full else None
        if full:
            for a in range(0, n + 1):
                for b in range(a, n + 1):
                    yield (a, b, None)
            for s in (2, 3, -1, -2, -3):
                for a in pts:
                    for b in (None, 0, n // 2, n - 1, n):
                        yield (a, b, s)
        else:
            marks = sorted({0, 1, 2, 3, 4, n // 2, n - 4, n - 1, n} & set(range(n + 1)))
            for a in marks:
                for b in marks:
                    if a <= b:
                        yield (a, b, None)
            yield (None, None, 2)
            yield (1, None, 2)
            yield (None, None, 3)
            yield (None, None, -1)
            yield (None, None, -2)
            yield (n, 0, -1)
            yield (-3, None, None)
            yield (None, -3, None)

    def batches(self, ks, gaps):
        yield ()
        lo, hi = gaps[0], gaps[-1]
        mid = gaps[len(gaps) // 2]
        pts = [lo, mid, hi] if len(gaps) > 2 else list(gaps)
        old = [] if self.distinct or not ks else [ks[0], ks[len(ks) // 2], ks[-1]]
        for p in pts:
            yield ((p, 0),)
        for k in old:
            yield ((k, self.emax - 1),)
        if self.maxbatch >= 2:
            yield ((hi, 0), (lo, 0))
            if not self.distinct:
                yield ((mid, 0), (mid, self.emax - 1))
                for k in old[:1]:
                    yield ((k, 0), (hi, 0))
        if self.maxbatch >= 3:
            yield ((hi, 0), (mid, 0) if len(gaps) > 2 else (hi + 1, 0), (lo, 0))
            for c in (5, 9, 17):
                yield tuple((hi + i, 0) for i in range(c))
                yield tuple((lo - i, 0) for i in range(c))

    # -- one transition -----------------------------------------------------

    def step(self, x, m, op):
        k = self.kind
        name = op[0]
        m = list(m)
        n = len(m)
        exp = ('ok', None)
        if name == 'add':
            v = k.elem(op[1], op[2])
            act = outcome(x.add, v)
            self._madd(m, v)
        elif name == 'pop':
            if len(op) == 1:
                act = outcome(x.pop)
                exp = outcome(m.pop)
            else:
                act = outcome(x.pop, op[1])
                exp = outcome(m.pop, op[1])
        elif name == 'touch':
            i = op[1]
            act = outcome(x.__getitem__, i)
            exp = outcome(m.__getitem__, i)
        elif name == 'touchb':
            v = k.elem(op[1], 0)
            act = outcome(x.bisect_left, v)
            kv = k.okey(v)
            exp = ('ok', sum(1 for e in m if k.okey(e) < kv))
        elif name in ('remove', 'discard'):
            v = k.elem(op[1], op[2])
            act = outcome(getattr(x, name), v)
            exp = outcome(m.remove, v)
            if name == 'discard':
                exp = ('ok', None)
        elif name == 'del':
            act = outcome(x.__delitem__, op[1])
            exp = outcome(m.__delitem__, op[1])
        elif name == 'dels':
            s = slice(op[1], op[2], op[3])
            act = outcome(x.__delitem__, s)
            exp = outcome(m.__delitem__, s)
        elif name == 'clear':
            act = outcome(x.clear)
            m = []
        elif name == 'reset':
            act = outcome(x._reset, op[1])
        elif name == 'imul':
            y = x
            try:
                y *= op[1]
                act = ('ok', None)
            except Exception as e:
                act = ('err', type(e))
            if y is not x:
                raise Violation('x *= n returns another object')
            m = sorted(m * op[1], key=k.okey)
        elif name in ('update', 'iadd'):
            vals = [k.elem(*c) for c in op[1]]
            if name == 'update':
                act = outcome(x.update, (v for v in vals))
            else:
                y = x
                try:
                    y += vals
                    act = ('ok', None)
                except Exception as e:
                    act = ('err', type(e))
                if y is not x:
                    raise Violation('x += y returns another object')
            m = sorted(m + vals, key=k.okey)
        elif name == 'iaddself':
            y = x
            try:
                y += x
                act = ('ok', None)
            except Exception as e:
                act = ('err', type(e))
            m = sorted(m + m, key=k.okey)
        elif name == 'updself':
            act = outcome(x.update, x)
            m = sorted(m + m, key=k.okey)
        else:
            raise KeyError(name)
        if exp[0] == 'err':
            if not match_err(act, exp[1]):
                raise Violation(self.render(op), fmt(exp), fmt(act))
        elif act[0] == 'err' or act[1] is not exp[1] and (
                act[1] != exp[1] or type(exp[1]) in (float, complex)):
            raise Violation(self.render(op), fmt(exp), fmt(act))
        check_contents(x, m)
        return m

    def _madd(self, m, v):
        k = self.kind
        kv = k.okey(v)
        i = len(m)
        while i and kv < k.okey(m[i - 1]):
            i -= 1
        m.insert(i, v)

    def render(self, op):
        k = self.kind
        name = op[0]
        if name in ('add', 'remove', 'discard'):
            return 'x.%s(%r)' % (name, k.elem(op[1], op[2]))
        if name == 'pop':
            return 'x.pop(%s)' % (', '.join(map(repr, op[1:])))
        if name == 'touch':
            return 'x[%d]' % op[1]
        if name == 'touchb':
            return 'x.bisect_left(%r)' % k.elem(op[1], 0)
        if name == 'del':
            return 'del x[%d]' % op[1]
        if name == 'dels':
            return 'del x[slice(%r, %r, %r)]' % op[1:]
        if name == 'clear':
            return 'x.clear()'
        if name == 'reset':
            return 'x._reset(%d)' % op[1]
        if name == 'imul':
            return 'x *= %d' % op[1]
        if name == 'update':
            return 'x.update(%r)' % [k.elem(*c) for c in op[1]]
        if name == 'iadd':
            return 'x += %r' % [k.elem(*c) for c in op[1]]
        if name == 'iaddself':
            return 'x += x'
        if name == 'updself':
            return 'x.update(x)'
        return repr(op)

    LEAVES = {'reset', 'imul', 'iaddself', 'updself'}

    def leaf(self, op, m):
        """Results that are checked in full but not expanded further."""
        if op[0] in self.LEAVES or len(m) > self.nmax + 1:
            return True
        return self.kmax is not None and len(
            {self.kind.okey(v) for v in m}) > self.kmax

    def on_leaf(self, x, m, st):
        st.add('leaves')
        for q in self.leaf_battery:
            q(clone(x), m, self.kind)

    def on_state(self, x, m, st):
        for q in self.battery:
            q(clone(x), m, self.kind)
            st.add('batteries')
