"""The set system: SortedSet (with bound methods taken at birth) explored against a
plain set whose members are listed in sorted order."""
from collections.abc import Set as AbcSet

from .core import Base, Quiet, SortedSet, Violation, clone
from .dicts import DKINDS
from .lists import BIG, bad, fmt, match_err, outcome

HELD = ('isdisjoint', 'issubset', 'issuperset', 'bisect_left', 'bisect_right', 'bisect',
        'index', 'irange', 'islice', 'count', '__contains__', 'add', 'discard', 'pop')
HELDK = ('bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange_key')


class SBundle:
    """A set with methods taken when it was born."""
    __slots__ = ('ss', 'held')
    __module__ = 'sortedcontainers.harness'

    def __init__(self, ss, keyed):
        self.ss = ss
        names = HELD + (HELDK if keyed else ())
        self.held = {n: getattr(ss, n) for n in names}


class ASet(AbcSet):
    """A minimal foreign set type."""

    def __init__(self, it):
        self.s = frozenset(it)

    def __contains__(self, v):
        return v in self.s

    def __iter__(self):
        return iter(self.s)

    def __len__(self):
        return len(self.s)


def check_set(ss, m, kind, text='list(ss)'):
    """list(ss), validated: the model's members, each once, non-decreasing."""
    order = list(ss)
    if len(order) != len(m) or set(order) != m:
        raise Violation('%s: members differ' % text, sorted(m, key=kind.okey), order)
    for a, b in zip(order, order[1:]):
        if kind.okey(b) < kind.okey(a):
            raise Violation('%s: not in order' % text, sorted(m, key=kind.okey), order)
    if len(ss) != len(m):
        raise Violation('len(ss)', len(m), len(ss))
    return order


def q_check(b, m, kind):
    ss = b.ss
    if hasattr(ss, '_check'):
        with Quiet():
            o = outcome(ss._check)
        if o[0] == 'err':
            raise Violation('ss._check() fails', 'passes', fmt(o))


def probe_members(m, kind):
    ks = sorted({kind.code(v)[0] for v in m})
    gaps = ([ks[0] - 1.0] + [(a + b) / 2 for a, b in zip(ks, ks[1:])] +
            [ks[-1] + 1.0]) if ks else [0.0]
    out = []
    for k in sorted(ks + gaps):
        out.append(kind.elem(k, 0))
        if kind.keyed:
            out.append(kind.elem(k, 1))
    return out


def q_setside(b, m, kind):
    """Both sides of the set, through fresh and through held methods."""
    ss, held = b.ss, b.held
    order = check_set(ss, m, kind)
    n = len(order)
    if bool(ss) != bool(m):
        bad('bool(ss)', ('ok', bool(m)), ('ok', bool(ss)))
    if list(reversed(ss)) != order[::-1]:
        bad('list(reversed(ss))', ('ok', order[::-1]), ('ok', list(reversed(ss))))
    for i in list(range(-n - 2, n + 2)) + [BIG, -BIG]:
        o = outcome(ss.__getitem__, i)
        if -n <= i < n:
            if o != ('ok', order[i]):
                bad('ss[%d]' % i, ('ok', order[i]), o)
        elif not match_err(o, IndexError):
            bad('ss[%d]' % i, ('err', IndexError), o)
    pts = [None] + sorted({-n - 1, -n, -2, -1, 0, 1, 2, n // 2, n - 1, n, n + 1})
    for a in pts:
        for c in pts:
            for s in (None, 2, -1, -3):
                o = outcome(ss.__getitem__, slice(a, c, s))
                if o != ('ok', order[a:c:s]):
                    bad('ss[%r:%r:%r]' % (a, c, s), ('ok', order[a:c:s]), o)
            for f in (ss.islice, held['islice']):
                for rev in (False, True):
                    e = order[a:c][::-1] if rev else order[a:c]
                    o = outcome(lambda: list(f(a, c, rev)))
                    if o != ('ok', e):
                        bad('ss.islice(%r, %r, %r)' % (a, c, rev), ('ok', e), o)
    keys = [kind.okey(v) for v in order]
    probes = probe_members(m, kind)
    for v in probes:
        q = kind.okey(v)
        bl = sum(1 for a in keys if a < q)
        br = sum(1 for a in keys if not q < a)
        exp = [('__contains__', v, v in m), ('count', v, int(v in m)),
               ('bisect_left', v, bl), ('bisect_right', v, br), ('bisect', v, br)]
        if kind.keyed:
            exp += [('bisect_key_left', q, bl), ('bisect_key_right', q, br),
                    ('bisect_key', q, br)]
        for name, a, e in exp:
            for f in (getattr(ss, name), held[name]):
                o = outcome(f, a)
                if o != ('ok', e):
                    bad('ss.%s(%r)' % (name, a), ('ok', e), o)
        for f in (ss.index, held['index']):
            o = outcome(f, v)
            if v in m:
                if o != ('ok', order.index(v)):
                    bad('ss.index(%r)' % (v,), ('ok', order.index(v)), o)
                i = order.index(v)
                for a, c in ((i, None), (i, i + 1), (0, i + 1), (i - n, n), (-n, None)):
                    o = outcome(f, v, a, c)
                    if o != ('ok', i):
                        bad('ss.index(%r, %r, %r)' % (v, a, c), ('ok', i), o)
                for a, c in ((i + 1, None), (0, i), (i, i)):
                    o = outcome(f, v, a, c)
                    if not match_err(o, ValueError):
                        bad('ss.index(%r, %r, %r)' % (v, a, c), ('err', ValueError), o)
            elif not match_err(o, ValueError):
                bad('ss.index(%r)' % (v,), ('err', ValueError), o)
    pv = [None] + probes
    for a in pv:
        ka = None if a is None else kind.okey(a)
        for c in pv:
            kc = None if c is None else kind.okey(c)
            for il in (True, False):
                for ih in (True, False):
                    e = [w for w, q in zip(order, keys)
                         if (ka is None or ka < q or (il and not q < ka)) and
                         (kc is None or q < kc or (ih and not kc < q))]
                    for rev in (False, True):
                        ee = e[::-1] if rev else e
                        r = list(held['irange'](a, c, (il, ih), rev))
                        if r != ee:
                            bad('ss.irange(%r, %r, (%r, %r), %r)' % (a, c, il, ih, rev),
                                ('ok', ee), ('ok', r))
                        if kind.keyed:
                            r = list(ss.irange_key(ka, kc, (il, ih), rev))
                            if r != ee:
                                bad('ss.irange_key(%r, %r, (%r, %r), %r)' % (
                                    ka, kc, il, ih, rev), ('ok', ee), ('ok', r))
    others = [set(), set(m), set(order[1:]), set(order[:1]), set(probes),
              set(probes) - m, set(order[::2]), set(order[:2]) | set(probes[:1])]
    for o_ in others:
        for form in (o_, frozenset(o_), list(o_), iter(o_)):
            for name in ('isdisjoint', 'issubset', 'issuperset'):
                for f in (getattr(ss, name), held[name]):
                    arg = list(o_) if not isinstance(form, (set, frozenset, list)) \
                        else form
                    if arg is not form:
                        arg = iter(arg)
                    o = outcome(f, arg)
                    e = getattr(m, name)(o_)
                    if o != ('ok', e):
                        bad('ss.%s(%r)' % (name, o_), ('ok', e), o)
        for txt, e, o in (('==', m == o_, ss == o_), ('!=', m != o_, ss != o_),
                          ('<', m < o_, ss < o_), ('<=', m <= o_, ss <= o_),
                          ('>', m > o_, ss > o_), ('>=', m >= o_, ss >= o_)):
            if e != o:
                bad('ss %s %r' % (txt, o_), ('ok', e), ('ok', o))


INPLACE = ('update', 'intersection_update', 'difference_update')
SETFORMS = ('set', 'list', 'dup', 'gen', 'ss', 'frozen', 'split', 'aset')
OPFORMS = ('set', 'frozen', 'ss', 'aset')


class SetSys(Base):

    def __init__(self, kind='num', load=4, nmax=8, opset='core', emax=1, kmax=None,
                 battery=(), cls=None, forms=('set', 'gen'), opforms=('ss',)):
        self.kind = DKINDS[kind]
        self.load = load
        self.nmax = nmax
        self.opset = opset
        self.emax = emax
        self.kmax = kmax
        self.battery = battery
        self.cls = cls or SortedSet
        self.forms = forms
        self.opforms = opforms

    def describe(self):
        return 'SortedSet %s load=%d: %s histories with at most %d values%s' % (
            self.kind.name, self.load, self.opset, self.nmax,
            '' if self.kmax is None else ', %d order classes' % self.kmax)

    def make(self, values=None):
        if self.kind.keyed:
            return self.cls(values, key=self.kind.key)
        return self.cls(values)

    def born(self):
        ss = self.make()
        ss._reset(self.load)
        return SBundle(ss, self.kind.keyed)

    def initial(self):
        return [(['ss = %s(%s); ss._reset(%d)' % (
            self.cls.__name__, 'key=negreal' if self.kind.keyed else '', self.load)],
            self.born(), set())]

    def fresh(self, label):
        return self.born(), set()

    def observe(self, b):
        return [list(b.ss), len(b.ss)]

    def expand(self, m):
        return len(m) <= self.nmax

    def leaf(self, op, m):
        if op[0] == 'reset' or len(m) > self.nmax + 1:
            return True
        return self.kmax is not None and len(
            {self.kind.okey(k) for k in m}) > self.kmax

    def on_leaf(self, b, m, st):
        st.add('leaves')
        q_check(b, m, self.kind)

    def valmap(self, m):
        rk = {q: i for i, q in enumerate(sorted({self.kind.okey(k) for k in m}))}
        if not self.kind.keyed:
            return {k: float(rk[k]) for k in m}
        vm = {k: (rk[self.kind.okey(k)], k.imag) for k in m}
        vm['F'] = {q: ('k', r) for q, r in rk.items()}
        return vm

    def operands(self, have, ks, gaps):
        """Argument contents, as code tuples."""
        lo, hi = (gaps[0], 0), (gaps[-1], 0)
        mid = (gaps[len(gaps) // 2], 0)
        out = [(), (lo,), (hi, lo), (mid, hi)]
        if have:
            out += [have[:1], have[-1:], tuple(have), have[::2], have[1:],
                    have[:1] + (hi,), tuple(have) + (lo,), have[len(have) // 2:],
                    (lo, hi) + have[-2:]]
        out += [tuple((gaps[-1] + i, 0) for i in range(c)) for c in (5, 9)]
        seen = set()
        for o in out:
            o = tuple(o)
            if o not in seen:
                seen.add(o)
                yield o

    def ops(self, b, m):
        k_ = self.kind
        n = len(m)
        E = range(self.emax)
        ks = sorted({k_.code(k)[0] for k in m})
        gaps = ([ks[0] - 1.0] + [(x + y) / 2 for x, y in zip(ks, ks[1:])] +
                [ks[-1] + 1.0]) if ks else [0.0]
        have = tuple(sorted(k_.code(k) for k in m))
        hs = set(have)
        if n <= self.nmax:
            if self.kmax is None or len(ks) < self.kmax:
                for g in gaps:
                    yield ('add', g, 0)
            for k in ks:
                for e in E:
                    if (k, e) not in hs:
                        yield ('add', k, e)
        for k, e in have:
            yield ('discard', k, e)
        yield ('touch', n // 2)
        if self.opset == 'core':
            return
        for k, e in have:
            yield ('add', k, e)
            yield ('remove', k, e)
        for g in gaps:
            yield ('remove', g, 0)
            yield ('discard', g, 0)
        yield ('pop',)
        for i in list(range(-n - 2, n + 2)) + [BIG]:
            yield ('pop', i)
            yield ('del', i)
        for s in ((None, None, None), (1, None, None), (None, -1, None),
                  (0, n // 2, None), (n // 2, n, None), (None, None, 2),
                  (None, None, -2), (-1, 0, -1), (2, 3, None), (3, 3, None),
                  (-3, None, None), (1, 3, None)):
            yield ('dels',) + s
        yield ('clear',)
        for r in (4, 7, 1000):
            yield ('reset', r)
        for o in self.operands(have, ks, gaps):
            for name in INPLACE:
                for f in self.forms:
                    yield ('inplace', name, f, o)
            for f in self.forms:
                if f != 'split':
                    yield ('inplace', 'symmetric_difference_update', f, o)
            for sym in '|&-^':
                for f in self.opforms:
                    yield ('op', sym, f, o)
        for name in INPLACE:
            yield ('inplace', name, 'none', ())
        for name in INPLACE + ('symmetric_difference_update',):
            yield ('inplace', name, 'self', have)
            yield ('inplace', name, 'iterself', have)
            yield ('inplace', name, 'sliceself', have[1:] if k_.name == 'num' else have)

    def arg(self, ss, f, o):
        k_ = self.kind
        vals = [k_.elem(*c) for c in o]
        if f == 'set':
            return (set(vals),)
        if f == 'list':
            return (vals,)
        if f == 'dup':
            return (vals + vals[:2],)
        if f == 'gen':
            return ((v for v in vals),)
        if f == 'frozen':
            return (frozenset(vals),)
        if f == 'ss':
            return (SortedSet(vals, key=k_.key),)
        if f == 'aset':
            return (ASet(vals),)
        if f == 'split':
            h = len(vals) // 2
            return (vals[:h], set(vals[h:]), (v for v in vals[:1]))
        if f == 'none':
            return ()
        if f == 'self':
            return (ss,)
        if f == 'iterself':
            return (iter(ss),)
        if f == 'sliceself':
            return (ss[1:] if k_.name == 'num' else ss[:],)
        raise KeyError(f)

    def step(self, b, m, op):
        k_ = self.kind
        ss = b.ss
        name = op[0]
        m = set(m)
        before = list(ss)
        exp = ('ok', None)
        if name in ('add', 'discard', 'remove'):
            v = k_.elem(op[1], op[2])
            f = b.held[name] if name in b.held and len(m) % 2 else getattr(ss, name)
            act = outcome(f, v)
            exp = outcome(getattr(m, name), v)
        elif name == 'touch':
            act = outcome(ss.__getitem__, op[1])
            exp = act if m else ('err', IndexError)
        elif name in ('pop', 'del'):
            i = op[1] if len(op) > 1 else -1
            act = outcome(ss.pop if name == 'pop' else ss.__delitem__, *op[1:])
            if -len(m) <= i < len(m):
                m.discard(before[i])
                if name == 'pop':
                    exp = ('ok', before[i])
            else:
                exp = ('err', IndexError)
        elif name == 'dels':
            s = slice(*op[1:])
            act = outcome(ss.__delitem__, s)
            m.difference_update(before[s])
        elif name == 'clear':
            act = outcome(ss.clear)
            m.clear()
        elif name == 'reset':
            act = outcome(ss._reset, op[1])
        elif name == 'inplace':
            act = outcome(getattr(ss, op[1]), *self.arg(ss, op[2], op[3]))
            if act[0] == 'ok':
                act = ('ok', None)    # the return value is not promised
            if op[2] == 'none':
                a = ()
            elif op[2] == 'split':
                vals = [k_.elem(*c) for c in op[3]]
                h = len(vals) // 2
                a = (vals[:h], vals[h:], vals[:1])
            else:
                a = ({k_.elem(*c) for c in op[3]},)
            getattr(m, op[1])(*a)
        elif name == 'op':
            z = ss
            a = self.arg(ss, op[2], op[3])[0]
            s = {k_.elem(*c) for c in op[3]}
            try:
                if op[1] == '|':
                    z |= a
                    m |= s
                elif op[1] == '&':
                    z &= a
                    m &= s
                elif op[1] == '-':
                    z -= a
                    m -= s
                else:
                    z ^= a
                    m ^= s
                act = ('ok', None)
            except Exception as ex:
                act = ('err', type(ex))
            if act[0] == 'ok' and z is not ss:
                raise Violation('ss %s= other returns another object' % op[1])
        else:
            raise KeyError(name)
        if exp[0] == 'err':
            if not match_err(act, exp[1]):
                raise Violation(self.render(op), fmt(exp), fmt(act))
        elif act != exp:
            raise Violation(self.render(op), fmt(exp), fmt(act))
        after = check_set(ss, m, k_)
        if exp[0] == 'err' and after != before:
            raise Violation(self.render(op) + ' failed but changed the order',
                            before, after)
        return m

    def render(self, op):
        k_ = self.kind
        name = op[0]
        if name in ('add', 'discard', 'remove'):
            return 'ss.%s(%r)' % (name, k_.elem(op[1], op[2]))
        if name == 'touch':
            return 'ss[%d]' % op[1]
        if name == 'pop':
            return 'ss.pop(%s)' % ', '.join(map(repr, op[1:]))
        if name == 'del':
            return 'del ss[%d]' % op[1]
        if name == 'dels':
            return 'del ss[slice%r]' % (op[1:],)
        if name == 'clear':
            return 'ss.clear()'
        if name == 'reset':
            return 'ss._reset(%d)' % op[1]
        if name == 'inplace':
            if op[2] == 'self':
                return 'ss.%s(ss)' % op[1]
            if op[2] == 'iterself':
                return 'ss.%s(iter(ss))' % op[1]
            return 'ss.%s(%r)  # as %s' % (op[1], [k_.elem(*c) for c in op[3]], op[2])
        if name == 'op':
            return 'ss %s= SortedSet(%r, key=ss.key)  # as %s' % (
                op[1], [k_.elem(*c) for c in op[3]], op[2])
        return repr(op)

    def on_state(self, b, m, st):
        for q in self.battery:
            q(clone(b), m, self.kind)
            st.add('batteries')
