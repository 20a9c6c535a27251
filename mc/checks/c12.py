"""C12 SortedDict views are live sorted sequences and sets."""
import warnings

from ..core import Cov, SortedDict, Violation
from ..dicts import DictSys, q_check, q_views, q_viewsets
from ..lists import outcome
from .c11 import Counting, Missing


def pairs_case(case, st):
    """Every pair of small dicts: set algebra and comparisons of their views."""
    from ..dicts import CMPS, OPS
    a, b, C = case
    A = {k: v for k, v in a}
    B = {k: v for k, v in b}
    sa, sb = C(A), C(B)
    for nm in ('keys', 'items'):
        x, y = getattr(sa, nm)(), getattr(sb, nm)()
        p, q = set(getattr(A, nm)()), set(getattr(B, nm)())
        for y2 in (y, q, frozenset(q), getattr(B, nm)()):
            for sym, op, _ in OPS:
                r = op(x, y2)
                if list(r) != sorted(op(p, q)):
                    raise Violation('%s %s %s' % (a, sym, b), sorted(op(p, q)), list(r))
            for sym, op in CMPS:
                if op(x, y2) != op(p, q) or op(y2, x) != op(q, p):
                    raise Violation('%s %s %s' % (a, sym, b), op(p, q), op(x, y2))
            for sym, op, _ in OPS:
                if sorted(op(y2, x)) != sorted(op(q, p)):
                    raise Violation('%s %s %s' % (b, sym, a), op(q, p), op(y2, x))
            if x.isdisjoint(y2) != p.isdisjoint(q):
                raise Violation('%s isdisjoint %s' % (a, b), p.isdisjoint(q))
        for e in q | {(9, 'u'), (0, 'w'), (2, ('missing', 2)), (9, ('missing', 9)), (9, 0)}:
            e = e if nm == 'items' else e[0] if isinstance(e, tuple) else e
            if (e in x) != (e in p) or x.count(e) != (e in p):
                raise Violation('%r in %s of %s (%s)' % (e, nm, a, C.__name__), e in p,
                                e in x)
    if list(sa.items()) != sorted(A.items()) or list(sb.items()) != sorted(B.items()):
        raise Violation('operands changed')


def big_case(case, st):
    """Views over many segments (and the default load) while the dict is drained and
    refilled; every position read at every stage."""
    n, load, keyed = case
    key = (lambda k: -k) if keyed else None
    sd = SortedDict(key)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # iloc: the deprecated name of the keys view
        views = (sd.keys(), sd.items(), sd.values(), sd.iloc)
    if load:
        sd._reset(load)
    m = {}
    stages = [range(0, n, 2), range(1, n, 2)]

    def check(tag, stride):
        ks = sorted(m, key=key)
        refs = (ks, [(k, m[k]) for k in ks], [m[k] for k in ks], ks)
        for v, ref in zip(views, refs):
            if list(v) != ref or len(v) != len(ref) or list(reversed(v)) != ref[::-1]:
                raise Violation('%r %s list(%s)' % (case, tag, type(v).__name__), ref,
                                list(v))
            for i in range(0, len(ref), stride):
                if v[i] != ref[i] or v[i - len(ref)] != ref[i]:
                    raise Violation('%r %s %s[%d]' % (case, tag, type(v).__name__, i),
                                    ref[i], v[i])
            for s in (slice(None), slice(3, -3), slice(None, None, 7),
                      slice(None, None, -1), slice(len(ref) // 2, None),
                      slice(-2, 2, -1), slice(len(ref) // 2, None, -3),
                      slice(None, len(ref) // 2, -2), slice(1, -1, 2)):
                if v[s] != ref[s]:
                    raise Violation('%r %s %s[%r]' % (case, tag, type(v).__name__, s),
                                    ref[s], v[s])
        for i in range(0, len(ks), stride):
            if (ks[i] not in views[0] or (ks[i], m[ks[i]]) not in views[1] or
                    (ks[i], 'x') in views[1]):
                raise Violation('%r %s membership %r' % (case, tag, ks[i]))
        for i in {0, len(ks) // 2, len(ks) - 1}:
            if ks and (views[0].index(ks[i]) != i or views[1].index(refs[1][i]) != i):
                raise Violation('%r %s index %r' % (case, tag, ks[i]))
    stride = 1 if n < 300 else 97
    for r in stages:
        for k in r:
            sd[k] = k + 0.5
            m[k] = k + 0.5
        check('grown', stride)
    t = 0
    while m:
        ks = sorted(m, key=key)
        w = views[t % 4]
        how = t % 5
        if how == 3 and len(ks) > 10:
            a = len(ks) // 3
            b = a + len(ks) // 5 + 1
            del w[a:b]
            gone = ks[a:b]
        elif how == 4 and len(ks) > 10:
            del w[::5]
            gone = ks[::5]
        else:
            i = (t * 5) % len(ks)
            del w[i if t % 2 else i - len(ks)]
            gone = [ks[i]]
        for k in gone:
            del m[k]
        if t == 10:
            for k in range(n, n + 20):
                sd[k] = k
                m[k] = k
        if t == 4 and m:
            sd.update({k: 'v' for k in list(m)[:5]})
            m.update({k: 'v' for k in list(m)[:5]})
        check('drain %d' % t, stride)
        t += 1
        if t > 400:
            sd.clear()
            m.clear()
            check('cleared', 1)
    sd._check()


def values_case(case, st):
    """Values and items are compared with ==, at every position of larger dicts: equal
    but distinct objects, values stored twice, values that are not there."""
    n, load, keyed, warm, C = case
    key = (lambda k: -k) if keyed else None
    sd = C(key)
    if load:
        sd._reset(load)
    m = {}
    for k in range(n):
        # every fourth value is held twice
        sd[k] = [k - k % 4 // 3]
        m[k] = [k - k % 4 // 3]
    if warm:
        sd.peekitem(n // 2)
    vs, its, ks = sd.values(), sd.items(), sd.keys()
    order = sorted(m, key=key)
    ref = [m[k] for k in order]
    refi = [(k, m[k]) for k in order]
    pos = range(n) if n < 200 else sorted(
        set(range(0, n, 53)) | {63, 64, 65, n - 1, n - 2, 127, 128, 999, 1000} & set(range(n)))
    for i in pos:
        k = order[i]
        for v in (list(ref[i]), [k], (k,), [k, k], k + 0.0, [k + 0.5]):
            if (v in vs) != (v in ref) or vs.count(v) != ref.count(v):
                raise Violation('%r %r in values, count' % (case, v),
                                (v in ref, ref.count(v)), (v in vs, vs.count(v)))
            if v in ref:
                a = ref.index(v)
                if vs.index(v) != a or vs.index(v, a) != a or vs.index(v, 0, a + 1) != a:
                    raise Violation('%r values().index(%r)' % (case, v), a, vs.index(v))
            else:
                try:
                    r = vs.index(v)
                except ValueError:
                    pass
                else:
                    raise Violation('%r values().index(%r)' % (case, v), 'ValueError', r)
            e = (k, v)
            if (e in its) != (e in refi) or its.count(e) != refi.count(e):
                raise Violation('%r %r in items, count' % (case, e),
                                (e in refi, refi.count(e)), (e in its, its.count(e)))
            if e in refi and its.index(e) != i:
                raise Violation('%r items().index(%r)' % (case, e), i, its.index(e))
        for q in (k, float(k), k + 0.5, -1 - k):
            if (q in ks) != (q in m) or ks.count(q) != order.count(q):
                raise Violation('%r %r in keys, count' % (case, q), (q in m), (q in ks))
        if ks.index(float(k)) != i:
            raise Violation('%r keys().index(%r)' % (case, k), i, ks.index(float(k)))
        st.add('transitions')


class Loose:
    """Equal to everything with the same tag; not hashable."""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Loose) and self.tag == o.tag

    def __repr__(self):
        return 'Loose(%r)' % self.tag


NAN = float('nan')
MIXED = (0, 1, True, 0.0, '', 'a', None, NAN, [], [0], [NAN], {}, (), (1,), {1}, b'',
         Loose(1), Loose(2), float, 1 + 0j, Ellipsis)


def mixed_case(case, st):
    """Dicts of any size whose values are of any kind (not hashable, not equal to
    themselves, equal to one another): what the values and items views answer."""
    n, rot, step, keyed = case
    key = (lambda v: -v) if keyed else None
    d = {2 * i: MIXED[(rot + i * step) % len(MIXED)] for i in range(n)}
    x = SortedDict(key, d)
    order = sorted(d, key=key)
    vals = [d[k] for k in order]
    V, I, K = x.values(), x.items(), x.keys()

    def same(text, got, want):
        if got != want or type(got) is not type(want):
            raise Violation('%s, %r' % (text, case), want, got)
        st.add('transitions')
    for i, v in enumerate(vals):
        if V[i] is not v or V[i - n] is not v or I[i][1] is not v or x.peekitem(i)[
                1] is not v:
            raise Violation('values()[%d], %r' % (i, case), v, V[i])
    for got in (list(V), V[:], [v for k, v in I], [v for k, v in I[:]],
                list(reversed(V))[::-1]):
        if len(got) != n or any(a is not b for a, b in zip(got, vals)):
            raise Violation('values, %r' % (case,), vals, got)
    probes = list(MIXED) + [float('nan'), [0, 1], Loose(1), Loose(3), {1: 1}, 'zz']
    for p in probes:
        same('%r in values()' % (p,), p in V, p in vals)
        same('values().count(%r)' % (p,), V.count(p), sum(
            1 for v in vals if v is p or v == p))
        same('values().index(%r)' % (p,), outcome(V.index, p)[:1],
             outcome(vals.index, p)[:1])
        if p in vals:
            same('values().index(%r)' % (p,), V.index(p), vals.index(p))
        for k in (order[0], order[n // 2], order[-1], -1) if n else (-1,):
            q = (k, p)
            same('%r in items()' % (q,), q in I, k in d and (d[k] is p or d[k] == p))
    same('len', len(V), n)


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_views, q_viewsets, q_check)
    cov.bfs('num', DictSys('num', 4, 15 if deep else 12, 'full', battery=B))
    cov.bfs('num-core', DictSys('num', 4, 20 if deep else 16, battery=(q_views,)))
    cov.bfs('key', DictSys('key', 4, 13 if deep else 11, 'full', battery=B))
    cov.bfs('key-ties', DictSys('key', 4, 8 if deep else 6, 'full', emax=3, kmax=2,
                                battery=B))
    cov.bfs('values', DictSys('num', 4, 5 if deep else 4, 'full', values=(0, 'v', 1),
                              battery=(q_views,)))
    subs = []
    for s in range(3 ** 3):
        subs.append([(k, 'uv'[(s // 3 ** k) % 3 - 1]) for k in range(3)
                     if (s // 3 ** k) % 3])
    cov.cases('pairs', 'view algebra and comparisons on all pairs of dicts over 3 keys '
              'and 2 values, also with __missing__ (returning, storing)', [(a, b, C) for a in subs for b in subs
               for C in (SortedDict, Missing, Counting)], pairs_case)
    cov.cases('big', 'larger dicts drained through their views',
              [(n, load, kd) for n in (9, 17, 33, 70, 150) + ((300,) if deep else ())
               for load in (4, 5, 8) for kd in (False, True)] +
              [(n, None, kd) for n in (1003, 2100) for kd in (False, True)], big_case)
    cov.cases('equal', 'equal but distinct values, keys and items at every position',
              [(n, load, kd, w, C) for n, load in ((1, 4), (5, 4), (9, 4), (40, 4), (70, 5),
                                                   (130, 4), (1003, None), (2100, None))
               for kd in (False, True) for w in (False, True)
               for C in (SortedDict, Missing)], values_case)
    cov.cases('mixed', 'values of every kind (unhashable, not equal to themselves, equal '
              'to one another), dicts of 0 to 40', [
                  (n, rot, step, keyed)
                  for n in (0, 1, 2, 3, 7, 15, 16, 17, 21, 40) + ((130,) if deep else ())
                  for rot in range(len(MIXED)) for step in (1, 2, 5)
                  for keyed in (False, True)], mixed_case)
    return cov.result()
