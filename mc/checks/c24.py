"""C24 Bulk operations equal the corresponding sequence of single operations.

Every pair (container size, batch size) of a grid that straddles all strategy
switches, on several internal layouts: the bulk call on one copy, the single calls on
another; the two must answer every question alike, also after further calls."""
import itertools
import operator
from collections import ChainMap, Counter, OrderedDict, UserDict, deque

from ..core import Cov, SortedDict, SortedList, SortedSet, Violation, clone
from ..dicts import AMapping
from ..keys import NEG
from ..lists import Kind, KINDS, outcome, struct_problem

KEYED = ('key', 'setkey', 'dictkey')


class IterOnly:
    def __init__(self, vals):
        self.vals = vals

    def __iter__(self):
        return iter(self.vals)


class GetOnly:
    """The old sequence protocol."""

    def __init__(self, vals):
        self.vals = vals

    def __getitem__(self, i):
        return self.vals[i]


class Duck:
    """What dict.update accepts besides mappings and pairs."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return iter(self.d)

    def __getitem__(self, k):
        return self.d[k]


def make(what, vals=None):
    key = NEG if what in KEYED else None
    if what in ('list', 'key'):
        return SortedList(vals, key=key)
    if what in ('set', 'setkey'):
        return SortedSet(vals, key=key)
    if vals is None:
        return SortedDict(key) if key else SortedDict()
    return SortedDict(key, vals) if key else SortedDict(vals)


def el(what, k, e=0):
    return complex(k, e) if what in KEYED else k + 0.0


def put(c, what, v, val=0):
    if what.startswith('dict'):
        c[v] = val
    else:
        c.add(v)


def layout(what, load, n, how, warm):
    """A container of the n values 0, 2, 4, ... reached in one of several ways."""
    vals = [el(what, 2 * i) for i in range(n)]
    c = make(what)
    c._reset(load)
    if how == 'bulk':
        c.update([(v, 0) for v in vals] if what.startswith('dict') else vals)
    elif how == 'up':
        for v in vals:
            put(c, what, v)
    elif how == 'middle':
        for i in range(n):
            put(c, what, vals[i // 2] if i % 2 == 0 else vals[n - 1 - i // 2])
    elif how == 'shrunk':
        extra = [el(what, 2 * i + 1) for i in range(n)]
        for v in vals:
            put(c, what, v)
        for v in extra:
            put(c, what, v)
        for v in extra:
            if what.startswith('dict'):
                del c[v]
            else:
                c.remove(v)
    if warm and n:
        seq(c, what)[n // 2]
    return c


def seq(c, what):
    return c.keys() if what.startswith('dict') else c


def image(c, what, ties=False):
    """Everything there is to ask."""
    s = seq(c, what)
    l = list(c)
    n = len(l)
    if ties:
        # equal keys: only lists promise their order
        l2 = sorted(l, key=lambda v: (NEG(v), v.imag))
        if [NEG(a) for a in l] != [NEG(a) for a in l2]:
            return 'not sorted', l
    else:
        l2 = l
    out = [len(c), l2, [v is w for v, w in zip(reversed(s), l[::-1])] == [True] * n,
           [s[i] is l[i] for i in range(n)] == [True] * n,
           [c.bisect_left(v) for v in l], [c.bisect_right(v) for v in l],
           [s[c.index(v)] == v for v in l], [v in c for v in l]]
    out.append(outcome(lambda: s[n]))
    out.append(s[1:n - 1] == l[1:n - 1])
    if n:
        out.append(list(c.irange(l[n // 2])) == l[c.bisect_left(l[n // 2]):])
        out.append(list(c.islice(n // 3)) == l[n // 3:])
    if what.startswith('dict'):
        out.append([dict.get(c, v) for v in l2])
        out.append(dict.__len__(c))
        out.append(list(c.values()) == [c[v] for v in l])
    o = outcome(c._check)
    if o[0] == 'err':
        out.append(o)
    if what in ('list', 'key'):
        out.append(struct_problem(c, c.key if what == 'key' else None))
    return out


def ident(c):
    return list(map(id, c))


def agree(a, b, what, text, ties=False, ids=True):
    ia, ib = image(a, what, ties), image(b, what, ties)
    if ia != ib:
        raise Violation(text, [y for x, y in zip(ia, ib) if x != y] or ib,
                        [x for x, y in zip(ia, ib) if x != y] or ia)
    if ids and not ties and ident(a) != ident(b):
        raise Violation(text + ': different (equal) objects are stored', list(b),
                        list(a))


def later(a, b, what, text, st, ties=False, ids=True):
    """The same calls afterwards have the same effect."""
    n = len(a)
    l = list(a)
    step = [('put', el(what, -99)), ('put', el(what, 10 ** 6))]
    if l:
        step += [('put', l[n // 2] + 0.125), ('drop', l[0]), ('drop', l[-1]),
                 ('drop', l[n // 2]), ('at', n // 3), ('at', -1)]
    for op, v in step:
        for c in (a, b):
            if op == 'put':
                put(c, what, v, 7)
            elif op == 'drop':
                if what.startswith('dict'):
                    c.pop(v, None)
                else:
                    c.discard(v)
            elif len(c) > abs(v):
                if ties:
                    continue
                if what.startswith('dict'):
                    c.popitem(v)
                else:
                    c.pop(v)
        st.add('transitions')
    agree(a, b, what, text + ', then %r' % (step,), ties, ids)


PATTERNS = ('high', 'low', 'gap', 'spread', 'existing', 'mixed', 'dups', 'ties')


def batch(what, n, m, pat):
    """m values relative to a container of 0, 2, ..., 2(n-1)."""
    if pat == 'high':
        ks = [(2 * n + i, 0) for i in range(m)]
    elif pat == 'low':
        ks = [(-1 - i, 0) for i in range(m)]
    elif pat == 'gap':
        g = 2 * (n // 2) + 1
        ks = [(g + ((i * 7) % (m or 1)) / (m + 1.0) / 2, 0) for i in range(m)]
    elif pat == 'spread':
        ks = [((i * 5) % (n + 1) * 2 - 1 + i / (m + 1.0) / 4, 0) for i in range(m)]
    elif pat == 'existing':
        ks = [((i * 3) % max(1, n) * 2, 0) for i in range(m)]
    elif pat == 'mixed':
        ks = [((i * 3) % max(1, n) * 2 + (i % 2), 0) for i in range(m)]
    elif pat == 'dups':
        ks = [(2 * n + 1 - (i // 3), 0) for i in range(m)]
    else:
        ks = [((i * 3) % max(1, n) * 2, 1 + i % 2 if what in KEYED else 0)
              for i in range(m)]
    return [el(what, k, e) for k, e in ks]


FORMS = {
    'list': list, 'tuple': tuple, 'gen': lambda v: (x for x in v), 'iter': iter,
    'deque': deque, 'iteronly': IterOnly, 'getonly': GetOnly,
    'map': lambda v: map(lambda x: x, v), 'chain': lambda v: itertools.chain(v[:1], v[1:]),
    'reversed': lambda v: reversed(v[::-1]),
}
# forms that drop duplicates or reorder: the singles follow the form's own iteration
SETFORMS = {
    'set': set, 'frozenset': frozenset, 'dict': dict.fromkeys,
    'keys': lambda v: dict.fromkeys(v).keys(), 'SortedList': lambda v: SortedList(
        v, key=NEG if v and isinstance(v[0], complex) else None),
    'SortedSet': lambda v: SortedSet(
        v, key=NEG if v and isinstance(v[0], complex) else None),
    'values': lambda v: {i: x for i, x in enumerate(v)}.values(),
}
ALLFORMS = {**FORMS, **SETFORMS}
PAIRFORMS = {
    'pairs': list, 'tuple': tuple, 'gen': lambda p: (x for x in p), 'iter': iter,
    'lists': lambda p: [list(x) for x in p], 'zip': lambda p: zip(
        [k for k, v in p], [v for k, v in p]), 'iteronly': IterOnly,
    'deque': deque}
MAPFORMS = {
    'dict': dict, 'ordered': OrderedDict, 'userdict': lambda p: UserDict(dict(p)),
    'mapping': lambda p: AMapping(dict(p)), 'duck': lambda p: Duck(dict(p)),
    'items': lambda p: dict(p).items(), 'counter': lambda p: Counter(dict(p)),
    'chainmap': lambda p: ChainMap(dict(p)),
    'SortedDict': lambda p: SortedDict(NEG, p) if p and isinstance(p[0][0], complex)
    else SortedDict(p)}
ALLPAIRS = {**PAIRFORMS, **MAPFORMS}


def update_grid(case, st):
    """One (kind, load, n, layout): every batch size and pattern; one form each,
    rotating; update, += / |= and (n = 0) the constructor."""
    what, load, n, how, warm, ms, allforms = case
    isd = what.startswith('dict')
    base = layout(what, load, n, how, warm)
    tieful = what in ('setkey', 'dictkey')
    fn = sorted(ALLPAIRS) if isd else sorted(ALLFORMS)
    for m in ms:
        for pi, pat in enumerate(PATTERNS):
            if pat == 'ties' and what not in KEYED:
                continue
            vals = batch(what, n, m, pat)
            forms = fn if allforms else [fn[(n + m * 3 + pi) % len(fn)]]
            for f in forms:
                entries = ('update', 'op') + (('new',) if n == 0 and how == 'bulk'
                                              else ())
                for entry in entries:
                    if allforms is False and entry == 'op' and (m + pi) % 3:
                        continue
                    if isd:
                        pairs = [(v, 'b%d' % i) for i, v in enumerate(vals)]
                        arg = ALLPAIRS[f](pairs)
                        single = pairs
                    else:
                        arg = ALLFORMS[f](vals)
                        if f in SETFORMS:
                            single = list(arg)
                        else:
                            single = vals
                    text = '%s n=%d layout=%s warm=%s load=%d: %s of %d %s as %s' % (
                        what, n, how, warm, load, entry, m, pat, f)
                    a, b = clone(base), clone(base)
                    if entry == 'update':
                        a.update(arg)
                    elif entry == 'op':
                        if what in ('list', 'key'):
                            a = operator.iadd(a, arg)
                        elif isd:
                            if f == 'duck':
                                continue
                            a = operator.ior(a, arg)
                        else:
                            if f not in ('set', 'frozenset', 'SortedSet', 'keys'):
                                continue
                            a = operator.ior(a, arg)
                    else:
                        a = make(what, arg)
                        a._reset(load)
                    for x in single:
                        if isd:
                            b[x[0]] = x[1]
                        else:
                            b.add(x)
                    st.add('transitions', 2)
                    ties = tieful and pat == 'ties'
                    agree(a, b, what, text, ties, ids=entry != 'new')
                    later(a, b, what, text, st, ties)
        st.add('states')


def several_iterables(case, st):
    """set.update/difference_update/intersection_update of several iterables, dict
    update with keywords: as one after the other."""
    what, load, n, how, warm = case
    base = layout(what, load, n, how, warm)
    isd = what.startswith('dict')
    for m1, m2 in itertools.product((0, 1, 2, 3, 5, 9, 17), (0, 1, 4, 12)):
        for p1, p2 in itertools.product(('high', 'existing', 'mixed', 'spread'),
                                        ('low', 'existing', 'mixed')):
            A, B = batch(what, n, m1, p1), batch(what, n, m2, p2)
            if isd:
                continue
            for nm in ('update', 'difference_update', 'intersection_update'):
                for args in ((A, B), (set(A), iter(B)), (iter(A), B, []), (A, set(B), A),
                             (), ([],), (A,)):
                    plain = [list(z) for z in (
                        (A, B) if len(args) == 2 else (A, B, []) if len(args) == 3 and
                        args[2] == [] else (A, B, A) if len(args) == 3 else
                        () if not args else (A,) if args[0] is A else ([],))]
                    if any(hasattr(z, '__next__') for z in args):
                        args = tuple(iter(list(p)) if hasattr(z, '__next__') else z
                                     for z, p in zip(args, plain))
                    a, b = clone(base), clone(base)
                    getattr(a, nm)(*args)
                    for z in plain:
                        if nm == 'update':
                            for v in z:
                                b.add(v)
                        elif nm == 'difference_update':
                            for v in z:
                                b.discard(v)
                        else:
                            for v in list(b):
                                if v not in z:
                                    b.remove(v)
                    st.add('transitions', 2)
                    text = '%r: ss.%s of %d %s and %d %s, %d arguments' % (
                        case, nm, m1, p1, m2, p2, len(args))
                    agree(a, b, what, text, ids=nm != 'intersection_update')
    st.add('states')


def removal_grid(case, st):
    """In-place set operations against one-at-a-time removal."""
    what, load, n, how, warm, ms = case
    base = layout(what, load, n, how, warm)
    members = list(base)
    sf = sorted(ALLFORMS)
    for m in ms:
        for pi, pat in enumerate(PATTERNS[:7] + ('suffix', 'prefix', 'alternate')):
            if pat == 'suffix':
                vals = members[-m:] if m else []
            elif pat == 'prefix':
                vals = members[:m]
            elif pat == 'alternate':
                vals = members[::2][:m] + batch(what, n, m // 3, 'high')
            else:
                vals = batch(what, n, m, pat)
            f = sf[(n + m * 3 + pi) % len(sf)]
            for nm in ('difference_update', 'intersection_update',
                       'symmetric_difference_update', '-=', '&=', '^='):
                if len(nm) == 2:
                    arg = (set, frozenset, lambda v: SortedSet(v, key=base.key))[
                        (m + pi) % 3](vals)
                else:
                    arg = ALLFORMS[f](vals)
                a, b = clone(base), clone(base)
                if len(nm) == 2:
                    a = {'-=': operator.isub, '&=': operator.iand,
                         '^=': operator.ixor}[nm](a, arg)
                else:
                    getattr(a, nm)(arg)
                uniq = list(dict.fromkeys(vals))
                if nm in ('difference_update', '-='):
                    for v in uniq:
                        b.discard(v)
                elif nm in ('intersection_update', '&='):
                    for v in members:
                        if v not in uniq:
                            b.remove(v)
                else:
                    for v in uniq:
                        if v in b:
                            b.remove(v)
                        else:
                            b.add(v)
                st.add('transitions', 2)
                text = '%s n=%d layout=%s warm=%s load=%d: %s of %d %s as %s' % (
                    what, n, how, warm, load, nm, m, pat, f)
                same = 'inter' not in nm and '&' not in nm
                agree(a, b, what, text, ids=same)
                later(a, b, what, text, st, ids=same)
    st.add('states')


def slice_grid(case, st):
    """Every slice deletion against deleting its positions one at a time."""
    what, load, n, how, warm, steps = case
    base = layout(what, load, n, how, warm)
    s0 = [None] + list(range(0, n + 1)) + [-1, -n, n + 3]
    for c in steps:
        pts = s0 if c in (None, 1) else sorted(
            {0, 1, 2, n // 4, n // 2, n - 2, n - 1, n} & set(range(n + 1))) + [None]
        for a_ in pts:
            for b_ in pts:
                s = slice(a_, b_, c)
                idx = sorted(range(n)[s], reverse=True)
                a, b = clone(base), clone(base)
                if what.startswith('dict'):
                    views = [a.keys(), a.items(), a.values()]
                    del views[len(idx) % 3][s]
                    for i in idx:
                        b.popitem(i)
                else:
                    del a[s]
                    for i in idx:
                        del b[i]
                st.add('transitions', 2)
                text = '%r: del x[%r:%r:%r]' % (case[:5], a_, b_, c)
                agree(a, b, what, text)
                if len(idx) % 2 or c is not None:
                    later(a, b, what, text, st)
    st.add('states')


def default_load(case, st):
    """Sizes around the switches at the default load factor."""
    what, n, op, m = case
    isd = what.startswith('dict')
    vals = [el(what, 2 * i) for i in range(n)]
    a = make(what, [(v, 0) for v in vals] if isd else vals)
    b = make(what, [(v, 0) for v in vals] if isd else vals)
    if n % 2 and n:
        seq(a, what)[n // 2], seq(b, what)[n // 2]
    if op in PATTERNS:
        new = batch(what, n, m, op)
        if isd:
            a.update((v, 1) for v in new)
        else:
            a.update(new)
        for v in new:
            put(b, what, v, 1)
    elif op == 'slice':
        lo = (n - m) // 2
        del seq(a, what)[lo:lo + m]
        for i in range(m):
            if isd:
                b.popitem(lo)
            else:
                del b[lo]
    else:
        new = vals[::2][:m // 2] + vals[-(m - m // 2):] if m else []
        getattr(a, op)(new)
        keep = set(new)
        if op == 'difference_update':
            for v in new:
                b.discard(v)
        elif op == 'intersection_update':
            for v in vals:
                if v not in keep:
                    b.discard(v)
        else:
            for v in keep:
                b.remove(v)
    st.add('transitions', m + 1)
    la, lb = list(a), list(b)
    s, t = seq(a, what), seq(b, what)
    k = len(lb)
    if la != lb or len(a) != len(b):
        raise Violation('%r: contents' % (case,), lb, la)
    for i in list(range(0, k, max(1, k // 200))) + list(range(max(0, k - 3), k)):
        if s[i] is not la[i] or s[i] != t[i] or a.index(la[i]) != b.index(la[i]) or \
                a.bisect_right(la[i]) != b.bisect_right(la[i]):
            raise Violation('%r: position %d' % (case, i), t[i], s[i])
    if isd and dict(a) != dict(b):
        raise Violation('%r: values' % (case,))
    a._check()


def kwargs_case(case, st):
    """dict.update with keywords, alone and with every first argument."""
    n, kws, form = case
    names = ['k%02d' % i for i in range(40)]
    base = SortedDict({names[2 * i]: 0 for i in range(n)})
    base._reset(4)
    kw = {names[(j * 7) % 40]: 'kw%d' % j for j in range(kws)}
    pairs = [(names[(j * 3) % 40], 'p%d' % j) for j in range((n + kws) % 9)]
    a, b = clone(base), clone(base)
    if form == 'none':
        a.update(**kw)
        pairs = []
    elif form == 'new':
        a = SortedDict(pairs, **kw)
        b = SortedDict()
    elif form == 'newkw':
        a = SortedDict(**kw)
        b = SortedDict()
        pairs = []
    elif form == 'newkey':
        a = SortedDict(str.lower, pairs, **kw)
        b = SortedDict(str.lower)
    else:
        a.update(ALLPAIRS[form](pairs), **kw)
        if form in MAPFORMS:
            pairs = list(dict(pairs).items())
    for k, v in pairs:
        b[k] = v
    for k, v in kw.items():
        b[k] = v
    st.add('transitions', 2)
    if list(a.items()) != list(b.items()) or len(a) != len(b) or a.key is not b.key:
        raise Violation('%r' % (case,), list(b.items()), list(a.items()))
    a._check()
    st.add('states')


HOWS = ('bulk', 'up', 'middle', 'shrunk')
VALUES = {'numbers': (1, True, 1.0), 'zeros': (0, False, 0.0), 'none': (None, 0, ''),
          'lists': ([1], [1], [2]), 'strings': ('a', ''.join(['a']), 'b')}


def values_case(case, st):
    """Dict updates whose values are equal to the stored ones but not the same object or
    class, or falsy: the later value wins, as with single assignments."""
    old, new, load, vk = case
    pool = VALUES[vk]
    n = len(old) + 9 * (load is not None)
    for keyed in (False, True):
        key = NEG if keyed else None
        base = [(float(2 * i), pool[old[i % len(old)]]) for i in range(n)] if old else []
        for first in (-1.0, 0.0, 1.0, 2.0):
            pairs = [(first + (j if first % 2 else 2 * j), pool[v])
                     for j, v in enumerate(new)]
            b = SortedDict(key, base)
            for k, v in pairs:
                b[k] = v
            for form in ('dict', 'pairs', 'gen', 'SortedDict', 'items', 'mapping'):
                for how in ('update', 'ior', 'or', 'ror', 'new'):
                    if how in ('or', 'ror') and form not in ('dict', 'SortedDict',
                                                             'mapping'):
                        continue
                    a = SortedDict(key, base)
                    if load:
                        a._reset(load)
                    o = (SortedDict(key, pairs) if form == 'SortedDict'
                         else ALLPAIRS[form](pairs))
                    want = b
                    if how == 'update':
                        a.update(o)
                    elif how == 'ior':
                        a |= o
                    elif how == 'or':
                        a = a | o
                    elif how == 'new':
                        a = SortedDict(key, o)
                        want = SortedDict(key)
                        for k, v in pairs:
                            want[k] = v
                    else:
                        want = SortedDict(key, pairs)
                        for k, v in base:
                            want[k] = v
                        a = o | a
                    st.add('transitions')
                    if list(a) != list(want) or any(
                            a[k] is not want[k] for k in want):
                        raise Violation('%s with %s of %r to %r' % (how, form, pairs,
                                                                    base),
                                        list(want.items()), list(a.items()))
    st.add('states')


KINDS6 = ('list', 'key', 'set', 'setkey', 'dict', 'dictkey')


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    N, M = (44, 50) if deep else (18, 20)
    cov.cases('update-grid', 'every container size up to %d and batch size up to %d, '
              '4 layouts, cold and warm index, 8 patterns' % (N, M),
              [(w, load, n, how, warm, tuple(range(M + 1)), False)
               for w in KINDS6 for n in range(N + 1) for how in HOWS
               for warm in (False, True) for load in ((4, 5) if deep else (4,))],
              update_grid, timeout=300)
    cov.cases('update-forms', 'every argument form',
              [(w, 4, n, how, True, (0, 1, 2, 3, 6, 11), True) for w in KINDS6
               for n in (0, 1, 4, 9, 20) for how in ('bulk', 'middle')],
              update_grid, timeout=300)
    cov.cases('several-iterables', 'several iterables in one call',
              [(w, 4, n, how, False) for w in ('set', 'setkey')
               for n in ((0, 1, 2, 5, 9, 17, 30) if deep else (0, 1, 5, 13))
               for how in ('bulk', 'middle')], several_iterables, timeout=300)
    N, M = (36, 40) if deep else (17, 19)
    cov.cases('removal-grid', 'in-place set operations: every size up to %d and '
              'argument size up to %d' % (N, M),
              [(w, 4, n, how, warm, tuple(range(M + 1))) for w in ('set', 'setkey')
               for n in range(N + 1) for how in HOWS for warm in (False, True)],
              removal_grid, timeout=300)
    N = 30 if deep else 17
    cov.cases('slice-grid', 'every slice with step 1 and the slices over boundary '
              'points with other steps, sizes up to %d' % N,
              [(w, load, n, how, warm, (None, 1, 2, 3, -1, -2))
               for w in KINDS6 for n in range(N + 1) if deep or n < 11 or n > 14
               for how in HOWS
               for warm in (False, True) for load in ((4, 5) if deep else (4,))],
              slice_grid, timeout=300)
    big = []
    for n in (0, 1, 999, 1000, 1001, 2000, 2001) + ((4000, 8001) if deep else ()):
        near = {q + d for q in (n // 4, n // 10, n // 8) for d in (-1, 0, 1)} | {
            0, 1, 5, n, n + 1}
        for m in sorted(q for q in near if q >= 0):
            for w in KINDS6:
                for op in ('high', 'low', 'spread', 'mixed'):
                    big.append((w, n, op, m))
                if m <= n:
                    big.append((w, n, 'slice', m))
                    if w.startswith('set'):
                        for op in ('difference_update', 'intersection_update',
                                   'symmetric_difference_update'):
                            big.append((w, n, op, m))
    cov.cases('default-load', 'sizes around the switches at the default load factor',
              big, default_load)
    cov.cases('values', 'values equal to the stored ones but of another class or '
              'identity, falsy values', [
                  (o, w, load, vk) for r in range(4) for o in itertools.product(range(3), repeat=r)
                  for s in range(1, 5 if deep else 4)
                  for w in itertools.product(range(3), repeat=s) for load in (None, 4)
                  for vk in VALUES if deep or len(o) < 3 or vk == 'numbers'],
              values_case)
    cov.cases('keywords', 'dict update and constructor with keywords',
              [(n, k, f) for n in (0, 1, 3, 9, 20) for k in (0, 1, 2, 5, 12, 25)
               for f in sorted(ALLPAIRS) + ['none', 'new', 'newkw', 'newkey']],
              kwargs_case)
    return cov.result(['order among equal keys is compared for lists only'])
