"""C05 bisect, index, count and membership agree with a linear scan."""
from functools import partial

from ..big import bulk, hist_cases, run_hist
from ..core import Cov, SortedDict, SortedSet, clone
from ..dicts import DictSys
from ..lists import (KINDS, ListSys, bad, match_err, outcome, probe_values, q_search)
from ..sets import SetSys, probe_members
from ..wide import runs_cases, w_find, wide_case, wide_cases

q_search_nostop = partial(q_search, stops=False)


def q_cold(x, m, kind):
    """Each search as the very first call on the state."""
    keys = [kind.okey(v) for v in m]
    pv = probe_values(m, kind)
    step = max(1, len(pv) // 9)
    for v in pv[::step] + pv[-2:]:
        k = kind.okey(v)
        bl = sum(1 for e in keys if e < k)
        br = sum(1 for e in keys if not k < e)
        jobs = [('bisect_left', v, bl), ('bisect_right', v, br), ('bisect', v, br),
                ('count', v, m.count(v)), ('__contains__', v, v in m)]
        if kind.keyed:
            jobs += [('bisect_key_left', k, bl), ('bisect_key_right', k, br),
                     ('bisect_key', k, br)]
        if v in m:
            jobs.append(('index', v, m.index(v)))
        for name, a, e in jobs:
            o = outcome(getattr(clone(x), name), a)
            if o != ('ok', e):
                bad('x.%s(%r)' % (name, a), ('ok', e), o)


def bulk_case(case, st):
    kind, load, n, ties = case
    k = KINDS[kind]
    x, m = bulk(kind, load or 1000, n, ties=ties, default=load is None)
    if load is None:
        keys = [k.okey(v) for v in m]
        import bisect
        for i in sorted({0, 1, 2, 499, 500, 999, 1000, 1001, 1002, 1999, 2000, 2001,
                         n // 2, n - 2, n - 1} & set(range(n))):
            for d in (0.0, 0.5, -0.5):
                base = k.code(m[i])
                v = k.elem(base[0] + d, base[1])
                kv = k.okey(v)
                bl, br = bisect.bisect_left(keys, kv), bisect.bisect_right(keys, kv)
                for name, e in (('bisect_left', bl), ('bisect_right', br),
                                ('bisect', br), ('count', m[bl:br].count(v)),
                                ('__contains__', v in m[bl:br])):
                    o = outcome(getattr(x, name), v)
                    if o != ('ok', e):
                        bad('x.%s(%r) n=%d' % (name, v, n), ('ok', e), o)
                for a, b in ((None, None), (bl, None), (bl + 1, None), (None, bl),
                             (None, bl + 1), (bl, bl + 1), (-n, n), (br - 1, br),
                             (-1, None), (None, -1), (bl - n, None), (0, 10 * n)):
                    lo = 0 if a is None else a
                    hi = n if b is None else b
                    lo = max(0, lo + n) if lo < 0 else lo
                    hi = hi + n if hi < 0 else hi
                    e = None
                    for j in range(bl, br):
                        if m[j] == v and lo <= j < hi:
                            e = j
                            break
                    o = outcome(x.index, v, a, b)
                    if (e is None and not match_err(o, ValueError)) or (
                            e is not None and o != ('ok', e)):
                        bad('x.index(%r, %r, %r) n=%d' % (v, a, b, n),
                            ('ok', e) if e is not None else ('err', ValueError), o)
    else:
        q_cold(x, m, k)
        q_search(x, m, k, stops=n <= 26)
    st.kind('ties' if ties else 'distinct')


def other_case(case, st):
    """The same methods on SortedSet and SortedDict (and through the dict's keys
    view), obtained before the contents were added."""
    what, n, load, keyed, drop = case
    key = (lambda v: -v) if keyed else None
    vals = [float(i * 2) for i in range(n)]
    c = SortedSet(key=key) if what == 'set' else SortedDict(key)
    names = ['bisect_left', 'bisect_right', 'bisect', 'index']
    if keyed:
        names += ['bisect_key_left', 'bisect_key_right', 'bisect_key']
    held = {a: getattr(c, a) for a in names}
    view = None if what == 'set' else c.keys()
    c._reset(load)
    for v in vals:
        if what == 'set':
            c.add(v)
        else:
            c[v] = None
    for i in range(drop):
        if what == 'set':
            c.pop(len(c) // 2)
        else:
            c.popitem(len(c) // 2)
        vals.sort(key=key)
        vals.pop(len(vals) // 2)
    m = sorted(vals, key=key)
    keys = [key(v) if key else v for v in m]
    for v in [i - 1.0 for i in range(2 * n + 3)]:
        kv = key(v) if key else v
        bl = sum(1 for q in keys if q < kv)
        br = sum(1 for q in keys if not kv < q)
        exp = {'bisect_left': bl, 'bisect_right': br, 'bisect': br,
               'bisect_key_left': bl, 'bisect_key_right': br, 'bisect_key': br}
        for a in names:
            for f in (held[a], getattr(c, a)):
                st.add('transitions')
                if a == 'index':
                    o = outcome(f, v)
                    if v in m and o != ('ok', m.index(v)) or (
                            v not in m and not match_err(o, ValueError)):
                        bad('%s.index(%r)' % (what, v), None, o)
                    for lo in range(-n - 1, n + 1, 2):
                        for hi in (None, n // 2, -1, n + 5):
                            e = outcome(m.index, v, lo, n if hi is None else hi)
                            o = outcome(f, v, lo, hi)
                            if (e[0] == 'ok' and o != e) or (
                                    e[0] == 'err' and not match_err(o, ValueError)):
                                bad('%s.index(%r, %r, %r)' % (what, v, lo, hi), e, o)
                else:
                    arg = kv if '_key' in a else v
                    o = outcome(f, arg)
                    if o != ('ok', exp[a]):
                        bad('%s.%s(%r)' % (what, a, arg), ('ok', exp[a]), o)
        if (v in c) != (v in m):
            bad('%r in %s' % (v, what), ('ok', v in m), ('ok', v in c))
        if what == 'set':
            if c.count(v) != m.count(v):
                bad('set.count(%r)' % v, ('ok', m.count(v)), ('ok', c.count(v)))
        else:
            if (v in view) != (v in m) or view.count(v) != m.count(v):
                bad('keys().count(%r)' % v, ('ok', m.count(v)), ('ok', view.count(v)))
            o = outcome(view.index, v)
            if v in m and o != ('ok', m.index(v)) or (
                    v not in m and not match_err(o, ValueError)):
                bad('keys().index(%r)' % v, None, o)


def q_unique(c, held, order, kind, probes, what):
    """c is a set, dict or keys view whose members, in order, are `order` (all
    different, possibly with equal keys)."""
    n = len(order)
    keys = [kind.okey(v) for v in order]

    def fns(name):
        return [f for f in (getattr(c, name, None), held.get(name)) if f]
    for v in probes:
        q = kind.okey(v)
        bl = sum(1 for a in keys if a < q)
        br = sum(1 for a in keys if not q < a)
        exp = [('__contains__', v, v in order), ('count', v, order.count(v)),
               ('bisect_left', v, bl), ('bisect_right', v, br), ('bisect', v, br)]
        if kind.keyed:
            exp += [('bisect_key_left', q, bl), ('bisect_key_right', q, br),
                    ('bisect_key', q, br)]
        for name, a, e in exp:
            for f in fns(name):
                o = outcome(f, a)
                if o != ('ok', e):
                    bad('%s.%s(%r)' % (what, name, a), ('ok', e), o)
        for f in fns('index'):
            for a in ([] if 'keys' in what else [None]) + list(range(-n - 1, n + 2)):
                for b in [None] + list(range(-n - 1, n + 2)):
                    e = outcome(order.index, v, 0 if a is None else a,
                                n if b is None else b)
                    o = outcome(f, v, a, b)
                    if (o != e if e[0] == 'ok' else not match_err(o, ValueError)):
                        bad('%s.index(%r, %r, %r)' % (what, v, a, b), e, o)


def q_set(b, m, kind):
    order = list(b.ss)
    q_unique(b.ss, b.held, order, kind, probe_members(m, kind), 'ss')


def q_dict(b, m, kind):
    order = list(b.sd)
    probes = probe_members(set(m), kind)
    q_unique(b.sd, {}, order, kind, probes, 'sd')
    q_unique(b.sd.keys(), {}, order, kind, probes, 'sd.keys()')


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_cold, q_search)
    cov.bfs('distinct', ListSys('list', 4, 17 if deep else 14, battery=B))
    cov.bfs('distinct-key', ListSys('key', 4, 15 if deep else 12, battery=B))
    cov.bfs('ties', ListSys('list', 4, 12 if deep else 10, distinct=False, kmax=3,
                            battery=B))
    cov.bfs('ties-key', ListSys('key', 4, 8 if deep else 6, distinct=False, kmax=2,
                                emax=2, battery=B))
    cov.bfs('one-class', ListSys('list', 4, 22 if deep else 17, distinct=False, kmax=1,
                                 battery=B))
    cov.bfs('one-class-key', ListSys('key', 4, 8 if deep else 7, distinct=False,
                                     kmax=1, emax=2, battery=B))
    cov.bfs('full', ListSys('list', 4, 12 if deep else 10, opset='full',
                            battery=(q_cold, q_search_nostop)))
    cov.bfs('distinct-larger', ListSys('list', 4, 22 if deep else 18,
                                       battery=(q_search_nostop,)))
    cov.cases('bulk', 'bulk lists, distinct and triple ties, all probes',
              [(k, load, n, t) for k in ('list', 'key') for load in (4, 5)
               for n in list(range(0, 40)) + [65, 66, 97, 130] + ([260] if deep else [])
               for t in (False, True)], bulk_case)
    cov.cases('default-load', 'default load factor',
              [(k, None, n, t) for k in ('list', 'key')
               for n in (1, 999, 1000, 1001, 2001, 4001) for t in (False, True)],
              bulk_case)
    cov.cases('set-dict', 'SortedSet, SortedDict, keys view; methods held from birth',
              [(w, n, load, kd, d) for w in ('set', 'dict') for n in range(0, 24)
               for load in (4, 5) for kd in (False, True) for d in (0, min(4, n))],
              other_case)
    cov.bfs('set-ties', SetSys('key', 4, 8 if deep else 6, emax=3, kmax=2,
                               battery=(q_set,)))
    cov.bfs('set-class', SetSys('key', 4, 8 if deep else 5, emax=5, kmax=1,
                                battery=(q_set,)))
    cov.bfs('dict-ties', DictSys('key', 4, 8 if deep else 6, emax=3, kmax=2,
                                 battery=(q_dict,)))
    cov.cases('histories', 'growth x shrink x read patterns',
              hist_cases(('list', 'key'), (4, 5) if deep else (4,), 80 if deep else 50),
              partial(run_hist, battery=(q_search_nostop,)))
    cov.cases('wide', 'lists of 16 to 1000 segments in three layouts, nine operations '
              'in every part of them, twice and thrice',
              wide_cases(('list', 'key'), (68, 131, 260, 520, 1030, 2060) if deep else (68, 260, 1030)),
              partial(wide_case, battery=(w_find,)), timeout=300)
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts, nine '
              'operations in every part of them, twice and thrice',
              runs_cases(('list', 'key'), (23, 51, 96, 181, 370) if deep else (23, 51, 96)),
              partial(wide_case, battery=(w_find,)), timeout=300)
    return cov.result()
