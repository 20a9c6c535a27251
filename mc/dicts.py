"""The dict system: SortedDict (with live views and bound methods taken at birth)
explored against a plain dict whose keys are listed in sorted order."""
from collections import UserDict
from collections.abc import Mapping

from .core import Base, SortedDict, SortedSet, Violation, clone
from .lists import BIG, bad, fmt, match_err, negreal, outcome


class DKind:
    """How order codes become keys."""

    def __init__(self, name):
        self.name = name
        self.keyed = name == 'key'
        self.key = negreal if self.keyed else None

    def elem(self, k, e=0):
        if self.name == 'str':
            return STR[int(k)]
        return complex(k, e) if self.keyed else k + 0.0

    def code(self, v):
        if self.name == 'str':
            return (STR.index(v), 0)
        return (v.real, v.imag) if self.keyed else (v, 0)

    def okey(self, v):
        return self.key(v) if self.keyed else v


STR = ('', 'a', 'b', 'c', 'd')
DKINDS = {n: DKind(n) for n in ('num', 'key', 'str')}
HELD = ('bisect_left', 'bisect_right', 'bisect', 'index', 'irange', 'islice',
        'setdefault', 'pop', 'peekitem', 'get')


class _NegKind(DKind):
    """The 'key' kind under a picklable key."""

    def __init__(self):
        from .keys import NEG
        self.name = 'key'
        self.keyed = True
        self.key = NEG


class Bundle:
    """A dict with views and methods taken when it was born."""
    __slots__ = ('sd', 'views', 'held')
    # cloned structurally, like the containers themselves
    __module__ = 'sortedcontainers.harness'

    def __init__(self, sd):
        self.sd = sd
        self.views = (sd.keys(), sd.items(), sd.values())
        self.held = tuple(getattr(sd, a) for a in HELD)


class AMapping(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def order_of(sd, m, kind, text='iteration'):
    """list(sd), validated: exactly the model's keys, non-decreasing order."""
    order = list(sd)
    if len(order) != len(m) or {id(k) for k in order} != {id(k) for k in m}:
        raise Violation('%s: keys differ' % text, sorted(m, key=kind.okey), order)
    for a, b in zip(order, order[1:]):
        if kind.okey(b) < kind.okey(a):
            raise Violation('%s: keys not in order' % text,
                            sorted(m, key=kind.okey), order)
    return order


def check_dict(sd, m, kind):
    order = order_of(sd, m, kind)
    if len(sd) != len(m):
        raise Violation('len(sd)', len(m), len(sd))
    if dict.__len__(sd) != len(m):
        raise Violation('dict part has %d keys' % dict.__len__(sd), len(m),
                        list(dict.keys(sd)))
    for k in m:
        o = outcome(dict.__getitem__, sd, k)
        if o[0] == 'err' or o[1] is not m[k]:
            raise Violation('value of %r' % (k,), m[k], fmt(o))
    return order


def q_check(b, m, kind):
    sd = b.sd
    if hasattr(sd, '_check'):
        from .core import Quiet
        with Quiet():
            o = outcome(sd._check)
        if o[0] == 'err':
            raise Violation('sd._check() fails', 'passes', fmt(o))


def q_mapping(b, m, kind, ties=True):
    """Every mapping read."""
    sd = b.sd
    order = check_dict(sd, m, kind)
    n = len(order)
    if bool(sd) != bool(m):
        bad('bool(sd)', ('ok', bool(m)), ('ok', bool(sd)))
    for txt, got, exp in (
            ('list(reversed(sd))', list(reversed(sd)), order[::-1]),
            ('list(sd.keys())', list(sd.keys()), order),
            ('list(sd.values())', list(sd.values()), [m[k] for k in order]),
            ('list(sd.items())', list(sd.items()), [(k, m[k]) for k in order])):
        if got != exp:
            bad(txt, ('ok', exp), ('ok', got))
    if not (sd == m and m == sd) or sd != m or m != sd:
        bad('sd == dict', ('ok', True), ('ok', False))
    probes = probe_keys(m, kind)
    for k in probes:
        if (k in sd) != (k in m):
            bad('%r in sd' % (k,), ('ok', k in m), ('ok', k in sd))
        o = outcome(sd.__getitem__, k)
        if k in m:
            if o[0] == 'err' or o[1] is not m[k]:
                bad('sd[%r]' % (k,), ('ok', m[k]), o)
        elif not match_err(o, KeyError):
            bad('sd[%r]' % (k,), ('err', KeyError), o)
        for f in (sd.get, b.held[HELD.index('get')]):
            if f(k) is not m.get(k) or f(k, 0) is not m.get(k, 0):
                bad('sd.get(%r)' % (k,), ('ok', m.get(k)), ('ok', f(k)))
    for f in (sd.peekitem, b.held[HELD.index('peekitem')]):
        for i in list(range(-n - 2, n + 2)) + [BIG, -BIG, None]:
            o = outcome(f) if i is None else outcome(f, i)
            j = -1 if i is None else i
            if -n <= j < n:
                e = ('ok', (order[j], m[order[j]]))
                if o != e or type(o[1]) is not tuple:
                    bad('sd.peekitem(%r)' % (i,), e, o)
            elif not match_err(o, IndexError):
                bad('sd.peekitem(%r)' % (i,), ('err', IndexError), o)
    keys = [kind.okey(k) for k in order]
    for k in probes:
        q = kind.okey(k)
        bl = sum(1 for a in keys if a < q)
        br = sum(1 for a in keys if not q < a)
        for name, e in (('bisect_left', bl), ('bisect_right', br), ('bisect', br)):
            for f in (getattr(sd, name), b.held[HELD.index(name)]):
                o = outcome(f, k)
                if o != ('ok', e):
                    bad('sd.%s(%r)' % (name, k), ('ok', e), o)
        for f in (sd.index, b.held[HELD.index('index')]):
            o = outcome(f, k)
            if k in m:
                if o != ('ok', order.index(k)):
                    bad('sd.index(%r)' % (k,), ('ok', order.index(k)), o)
            elif not match_err(o, ValueError):
                bad('sd.index(%r)' % (k,), ('err', ValueError), o)
        for f in (sd.irange, b.held[HELD.index('irange')]):
            got = list(f(minimum=k))
            if got != [a for a in order if not kind.okey(a) < q]:
                bad('list(sd.irange(%r))' % (k,), ('ok', order), ('ok', got))
    for f in (sd.islice, b.held[HELD.index('islice')]):
        if list(f(1, n - 1)) != order[1:n - 1] or list(f()) != order:
            bad('sd.islice', ('ok', order), ('ok', list(f())))


def probe_keys(m, kind):
    if kind.name == 'str':
        return list(STR)
    ks = sorted({kind.code(v)[0] for v in m})
    gaps = ([ks[0] - 1.0] + [(a + b) / 2 for a, b in zip(ks, ks[1:])] +
            [ks[-1] + 1.0]) if ks else [0.0]
    out = []
    for k in sorted(ks + gaps):
        out.append(kind.elem(k, 0))
        if kind.keyed:
            out.append(kind.elem(k, 1))
    return out


def q_views(b, m, kind):
    """Old and new views read like the sorted list of current items."""
    sd = b.sd
    order = check_dict(sd, m, kind)
    n = len(order)
    refs = (order, [(k, m[k]) for k in order], [m[k] for k in order])
    names = ('keys()', 'items()', 'values()')
    new = (sd.keys(), sd.items(), sd.values())
    pts = [None] + sorted({-n - 1, -n, -2, -1, 0, 1, 2, 3, n // 2, n - 1, n, n + 1})
    for nm, ref, vs in zip(names, refs, zip(b.views, new)):
        for v in vs:
            if len(v) != n or bool(v) != bool(n):
                bad('len(sd.%s)' % nm, ('ok', n), ('ok', len(v)))
            if list(v) != ref or list(iter(v)) != ref:
                bad('list(sd.%s)' % nm, ('ok', ref), ('ok', list(v)))
            if list(reversed(v)) != ref[::-1]:
                bad('list(reversed(sd.%s))' % nm, ('ok', ref[::-1]),
                    ('ok', list(reversed(v))))
            for i in range(-n - 2, n + 2):
                o = outcome(v.__getitem__, i)
                if -n <= i < n:
                    if o != ('ok', ref[i]):
                        bad('sd.%s[%d]' % (nm, i), ('ok', ref[i]), o)
                elif not match_err(o, IndexError):
                    bad('sd.%s[%d]' % (nm, i), ('err', IndexError), o)
            for a in pts:
                for c in pts:
                    for s in (None, 2, -1, -2):
                        o = outcome(v.__getitem__, slice(a, c, s))
                        if o != ('ok', ref[a:c:s]):
                            bad('sd.%s[%r:%r:%r]' % (nm, a, c, s),
                                ('ok', ref[a:c:s]), o)
            probes = probe_keys(m, kind)
            if nm == 'items()':
                probes = [(k, m.get(k, 0)) for k in probes] + [(k, 'no') for k in probes]
            elif nm == 'values()':
                probes = refs[2] + ['no', None]
            for p in probes:
                if (p in v) != (p in ref):
                    bad('%r in sd.%s' % (p, nm), ('ok', p in ref), ('ok', p in v))
                if v.count(p) != ref.count(p):
                    bad('sd.%s.count(%r)' % (nm, p), ('ok', ref.count(p)),
                        ('ok', v.count(p)))
                o = outcome(v.index, p)
                e = outcome(ref.index, p)
                if (e[0] == 'ok' and o != e) or (
                        e[0] == 'err' and not match_err(o, ValueError)):
                    bad('sd.%s.index(%r)' % (nm, p), e, o)
                for a, c in ((1, n), (0, n - 1), (-2, None), (n // 2, n)):
                    e = outcome(ref.index, p, a, n if c is None else c)
                    o = outcome(v.index, p, a, *(() if c is None else (c,)))
                    if (e[0] == 'ok' and o != e) or (
                            e[0] == 'err' and not match_err(o, ValueError)):
                        bad('sd.%s.index(%r, %r, %r)' % (nm, p, a, c), e, o)


def q_viewsets(b, m, kind):
    """Set operations and comparisons on keys and items views (un-keyed dicts)."""
    if kind.keyed:
        return
    sd = b.sd
    order = sorted(m)
    n = len(order)
    for nm, v0, ref in (('keys()', b.views[0], order),
                        ('items()', b.views[1], [(k, m[k]) for k in order])):
        rs = set(ref)
        extra = kind.elem(order[-1] + 5.0) if order and kind.name != 'str' else (
            kind.elem(3.0))
        if nm == 'items()':
            extra = (extra, 1)
        others = [[], ref, ref[1:], ref[:1] + [extra], ref + [extra], [extra],
                  ref[::2]]
        for oth in others:
            so = set(oth)
            forms = [so, frozenset(so), SortedSet(so), list(oth)]
            if nm == 'keys()':
                forms += [SortedDict.fromkeys(oth).keys(), dict.fromkeys(oth).keys()]
            else:
                forms += [SortedDict(oth).items(), dict(oth).items()]
            for f in forms:
                for v in (v0, getattr(sd, nm[:-2])()):
                    for sym, op, rop in OPS:
                        e = sorted(op(rs, so))
                        o = outcome(op, v, f)
                        if o[0] == 'err' or type(o[1]) is not SortedSet or list(
                                o[1]) != e:
                            bad('sd.%s %s %s(%r)' % (nm, sym, type(f).__name__, oth),
                                ('ok', e), o)
                        e = sorted(op(so, rs))
                        o = outcome(op, f, v)
                        if o[0] == 'err':
                            bad('%s(%r) %s sd.%s' % (type(f).__name__, oth, sym, nm),
                                ('ok', e), o)
                        if sorted(o[1]) != e:
                            bad('%s(%r) %s sd.%s' % (type(f).__name__, oth, sym, nm),
                                ('ok', e), o)
                    if v.isdisjoint(f) != rs.isdisjoint(so):
                        bad('sd.%s.isdisjoint(%r)' % (nm, f),
                            ('ok', rs.isdisjoint(so)), ('ok', v.isdisjoint(f)))
                    if isinstance(f, list):
                        if v == f or not v != f:
                            bad('sd.%s == list' % nm, ('ok', False), ('ok', True))
                        continue
                    for sym, op in CMPS:
                        for x, y, p, q in ((v, f, rs, so), (f, v, so, rs)):
                            o = outcome(op, x, y)
                            if o != ('ok', op(p, q)):
                                bad('%s %s %s with %r, %r' % (
                                    type(x).__name__, sym, type(y).__name__, p, q),
                                    ('ok', op(p, q)), o)


def _ops():
    import operator as o
    return ((('&', o.and_, None), ('|', o.or_, None), ('-', o.sub, None),
             ('^', o.xor, None)),
            (('==', o.eq), ('!=', o.ne), ('<', o.lt), ('<=', o.le), ('>', o.gt),
             ('>=', o.ge)))


OPS, CMPS = _ops()


FORMS = ('dict', 'pairs', 'gen', 'tuple', 'sd', 'map', 'userdict', 'items', 'ior',
         'iorpairs', 'lists')


class DictSys(Base):
    """ops: 'core' or 'full'."""

    def __init__(self, kind='num', load=4, nmax=8, opset='core', emax=1, kmax=None,
                 battery=(), values=None, cls=None, forms=('dict', 'pairs', 'ior')):
        self.kind = DKINDS[kind]
        self.load = load
        self.nmax = nmax
        self.opset = opset
        self.emax = emax
        self.kmax = kmax
        self.battery = battery
        self.values = values
        self.cls = cls or SortedDict
        self.forms = forms

    def describe(self):
        return 'SortedDict keys=%s load=%d: %s histories with at most %d keys%s' % (
            self.kind.name, self.load, self.opset, self.nmax,
            '' if self.values is None else ', values %r' % (self.values,))

    def make(self):
        sd = self.cls(self.kind.key) if self.kind.keyed else self.cls()
        sd._reset(self.load)
        return Bundle(sd)

    def initial(self):
        return [(['sd = %s(%s); sd._reset(%d)' % (
            self.cls.__name__, 'negreal' if self.kind.keyed else '', self.load)],
            self.make(), {})]

    def fresh(self, label):
        return self.make(), {}

    def observe(self, b):
        return [list(b.sd.items()), len(b.sd)]

    def expand(self, m):
        return len(m) <= self.nmax

    def leaf(self, op, m):
        if op[0] == 'reset' or len(m) > self.nmax + 1:
            return True
        return self.kmax is not None and len(
            {self.kind.okey(k) for k in m}) > self.kmax

    def on_leaf(self, b, m, st):
        st.add('leaves')
        q_check(b, m, self.kind)

    def valmap(self, m):
        if self.kind.name == 'str':
            return {}
        rk = {}
        vm = {}
        for q in sorted({self.kind.okey(k) for k in m}):
            rk[q] = len(rk)
        if not self.kind.keyed:
            return {k: float(rk[k]) for k in m}
        for k in m:
            vm[k] = (rk[negreal(k)], k.imag)
        vm['F'] = {q: ('k', r) for q, r in rk.items()}
        return vm

    def extra(self, m):
        if self.values is None:
            return b''
        if self.kind.name == 'str':
            return repr(sorted(m.items(), key=lambda kv: kv[0])).encode()
        rk = {q: i for i, q in enumerate(sorted({self.kind.okey(k) for k in m}))}
        return repr(sorted((rk[self.kind.okey(k)], k.imag, repr(v))
                           for k, v in m.items())).encode()

    def newvals(self, m):
        if self.values is not None:
            return list(self.values)
        n = 1 + max([v for v in m.values()], default=-1)
        return [n]

    def ops(self, b, m):
        k_ = self.kind
        n = len(m)
        E = range(self.emax)
        if k_.name == 'str':
            ks = sorted({k_.code(k)[0] for k in m})
            gaps = [i for i in range(len(STR)) if STR[i] not in m]
        else:
            ks = sorted({k_.code(k)[0] for k in m})
            gaps = ([ks[0] - 1.0] + [(x + y) / 2 for x, y in zip(ks, ks[1:])] +
                    [ks[-1] + 1.0]) if ks else [0.0]
        vals = self.newvals(m)
        have = {k_.code(k) for k in m}
        if n <= self.nmax:
            if self.kmax is None or len(ks) < self.kmax:
                for g in gaps:
                    for v in vals:
                        yield ('set', g, 0, v)
            if self.emax > 1:
                for k in ks:
                    for e in E:
                        if (k, e) not in have:
                            yield ('set', k, e, vals[0])
        for k, e in sorted(have):
            yield ('delk', k, e)
        yield ('touch', n // 2)
        if self.opset == 'core':
            return
        for k, e in sorted(have):
            for v in vals:
                yield ('set', k, e, v)
            yield ('pop', k, e, 'none')
            yield ('pop', k, e, 'None')
            yield ('pop', k, e, 'zero')
            for v in vals:
                yield ('setdef', k, e, v)
            yield ('setdefnone', k, e)
        for g in gaps[:5]:
            yield ('delk', g, 0)
            yield ('pop', g, 0, 'none')
            yield ('pop', g, 0, 'None')
            yield ('pop', g, 0, 'zero')
            yield ('pop', g, 0, 'kw')
            if n <= self.nmax:
                for v in vals:
                    yield ('setdef', g, 0, v)
                yield ('setdefnone', g, 0)
        yield ('popitem',)
        for i in list(range(-n - 2, n + 2)) + [BIG]:
            yield ('popitem', i)
            yield ('viewdel', i % 3, i)
        for w in range(3):
            for s in ((None, None, None), (1, None, None), (None, -1, None),
                      (0, n // 2, None), (n // 2, n, None), (None, None, 2),
                      (None, None, -2), (-1, 0, -1), (2, 3, None), (3, 3, None)):
                yield ('viewslice', w) + s
        yield ('clear',)
        for r in (4, 7, 1000):
            yield ('reset', r)
        lo, hi = gaps[0] if gaps else None, gaps[-1] if gaps else None
        batches = [()]
        if gaps:
            v0 = vals[0]
            v1 = vals[-1] if self.values else v0 + 1
            mid = gaps[len(gaps) // 2]
            batches += [((lo, 0, v0),), ((hi, 0, v0), (lo, 0, v1)),
                        ((hi, 0, v0), (hi, 0, v1)),
                        ((mid, 0, v1), (lo, 0, v0), (mid, 0, v0))]
            if ks:
                batches += [((ks[-1], [e for q, e in sorted(have) if q == ks[-1]][0],
                              v0), (lo, 0, v1)),
                            ((ks[0], [e for q, e in sorted(have) if q == ks[0]][0], v1),)]
            if k_.name != 'str':
                batches += [tuple((hi + i, 0, v0) for i in range(c)) for c in (5, 9)]
        for ba in batches:
            for f in self.forms:
                yield ('update', f, ba)
        if k_.name == 'str':
            for g in list(range(1, len(STR))):
                yield ('kwargs', (g,), vals[0], 'alone')
                yield ('kwargs', (g,), vals[-1], 'pairs')
                yield ('kwargs', (g, 1), vals[-1], 'dict')
            yield ('kwargs', (), vals[0], 'alone')

    def step(self, b, m, op):
        k_ = self.kind
        sd = b.sd
        name = op[0]
        m = dict(m)
        before = list(sd)
        exp = ('ok', None)
        if name == 'set':
            k = k_.elem(op[1], op[2])
            act = outcome(sd.__setitem__, k, op[3])
            m[k] = op[3]
        elif name == 'delk':
            k = k_.elem(op[1], op[2])
            act = outcome(sd.__delitem__, k)
            exp = outcome(m.__delitem__, k)
        elif name == 'touch':
            act = outcome(sd.peekitem, op[1])
            exp = act if m else ('err', IndexError)
        elif name == 'pop':
            k = k_.elem(op[1], op[2])
            if op[3] == 'none':
                act = outcome(sd.pop, k)
                exp = outcome(m.pop, k)
            elif op[3] == 'kw':
                act = outcome(lambda: sd.pop(k, default='dflt'))
                exp = outcome(m.pop, k, 'dflt')
            else:
                d = {'None': None, 'zero': 0}[op[3]]
                act = outcome(sd.pop, k, d)
                exp = outcome(m.pop, k, d)
        elif name in ('setdef', 'setdefnone'):
            k = k_.elem(op[1], op[2])
            a = (k,) if name == 'setdefnone' else (k, op[3])
            act = outcome(sd.setdefault, *a)
            exp = outcome(m.setdefault, *a)
        elif name == 'popitem':
            i = op[1] if len(op) > 1 else -1
            act = outcome(sd.popitem, *op[1:])
            if not m:
                exp = ('err', KeyError)
            elif -len(m) <= i < len(m):
                k = before[i]
                exp = ('ok', (k, m.pop(k)))
            else:
                exp = ('err', IndexError)
        elif name == 'viewdel':
            i = op[2]
            act = outcome(b.views[op[1]].__delitem__, i)
            if -len(m) <= i < len(m):
                del m[before[i]]
            else:
                exp = ('err', IndexError)
        elif name == 'viewslice':
            s = slice(*op[2:])
            act = outcome(b.views[op[1]].__delitem__, s)
            for k in before[s]:
                del m[k]
        elif name == 'clear':
            act = outcome(sd.clear)
            m.clear()
        elif name == 'reset':
            act = outcome(sd._reset, op[1])
        elif name == 'update':
            pairs = [(k_.elem(k, e), v) for k, e, v in op[2]]
            f = op[1]
            if f in ('ior', 'iorpairs'):
                z = sd
                try:
                    z |= dict(pairs) if f == 'ior' else pairs
                    act = ('ok', None)
                except Exception as ex:
                    act = ('err', type(ex))
                if z is not sd:
                    raise Violation('sd |= other returns another object')
            else:
                arg = {'dict': lambda: dict(pairs), 'pairs': lambda: pairs,
                       'gen': lambda: (p for p in pairs), 'tuple': lambda: tuple(pairs),
                       'sd': lambda: SortedDict(k_.key, pairs) if k_.keyed
                       else SortedDict(pairs), 'map': lambda: AMapping(dict(pairs)),
                       'userdict': lambda: UserDict(pairs),
                       'items': lambda: dict(pairs).items(),
                       'lists': lambda: [list(p) for p in pairs]}[f]()
                act = outcome(sd.update, arg)
            m.update(pairs)
        elif name == 'kwargs':
            kw = {STR[g]: op[2] for g in op[1]}
            if op[3] == 'alone':
                act = outcome(lambda: sd.update(**kw))
            elif op[3] == 'pairs':
                act = outcome(lambda: sd.update([('a', 'first'), ('', 'e')], **kw))
                m.update([('a', 'first'), ('', 'e')])
            else:
                act = outcome(lambda: sd.update({'a': 'first', 'd': 'x'}, **kw))
                m.update({'a': 'first', 'd': 'x'})
            m.update(kw)
        else:
            raise KeyError(name)
        if exp[0] == 'err':
            if not match_err(act, exp[1]):
                raise Violation(self.render(op), fmt(exp), fmt(act))
        elif act[0] == 'err' or act[1] is not exp[1] and act[1] != exp[1]:
            raise Violation(self.render(op), fmt(exp), fmt(act))
        elif act[0] == 'ok' and type(act[1]) is not type(exp[1]):
            raise Violation(self.render(op), fmt(exp), fmt(act))
        after = check_dict(sd, m, k_)
        if exp[0] == 'err' and after != before:
            raise Violation(self.render(op) + ' failed but changed the order',
                            before, after)
        return m

    def render(self, op):
        k_ = self.kind
        name = op[0]
        if name == 'set':
            return 'sd[%r] = %r' % (k_.elem(op[1], op[2]), op[3])
        if name == 'delk':
            return 'del sd[%r]' % (k_.elem(op[1], op[2]),)
        if name == 'touch':
            return 'sd.peekitem(%d)' % op[1]
        if name == 'pop':
            d = {'none': '', 'None': ', None', 'zero': ', 0', 'kw': ', default="dflt"'}
            return 'sd.pop(%r%s)' % (k_.elem(op[1], op[2]), d[op[3]])
        if name == 'setdef':
            return 'sd.setdefault(%r, %r)' % (k_.elem(op[1], op[2]), op[3])
        if name == 'setdefnone':
            return 'sd.setdefault(%r)' % (k_.elem(op[1], op[2]),)
        if name == 'popitem':
            return 'sd.popitem(%s)' % ', '.join(map(repr, op[1:]))
        if name == 'viewdel':
            return 'del sd.%s()[%d]' % (('keys', 'items', 'values')[op[1]], op[2])
        if name == 'viewslice':
            return 'del sd.%s()[slice%r]' % (('keys', 'items', 'values')[op[1]], op[2:])
        if name == 'clear':
            return 'sd.clear()'
        if name == 'reset':
            return 'sd._reset(%d)' % op[1]
        if name == 'update':
            return 'sd.update(%r)  # as %s' % (
                [(k_.elem(k, e), v) for k, e, v in op[2]], op[1])
        if name == 'kwargs':
            base = {'alone': '', 'pairs': "[('a', 'first'), ('', 'e')], ",
                    'dict': "{'a': 'first', 'd': 'x'}, "}[op[3]]
            return 'sd.update(%s**%r)' % (base, {STR[g]: op[2] for g in op[1]})
        return repr(op)

    def on_state(self, b, m, st):
        for q in self.battery:
            q(clone(b), m, self.kind)
            st.add('batteries')


DKIND_NEG = _NegKind()
