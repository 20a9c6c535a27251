"""C04 Deleting by index or slice removes exactly the selected positions."""
from functools import partial

from ..big import bulk, hist_cases, run_hist
from ..core import Cov, HarnessError, Quiet, SortedDict, SortedSet, Violation, clone
from ..lists import (BIG, KINDS, ListSys, bad, check_contents, fmt, match_err, outcome,
                     q_ints, q_light, q_struct, same, slice_domain)
from ..wide import layouts, runs_cases, w_contents, w_read
from ..wide import wide_case as ops_case


def del_int(x, m, kind, i, how, post):
    n = len(m)
    y = clone(x)
    if how == 'del':
        o = outcome(y.__delitem__, i)
    elif i is None:
        o = outcome(y.pop)
    else:
        o = outcome(y.pop, i)
    j = -1 if i is None else i
    text = 'del x[%r]' % i if how == 'del' else 'x.pop(%s)' % ('' if i is None else i)
    if -n <= j < n:
        e = list(m)
        v = e.pop(j)
        if o[0] == 'err' or (o[1] is not v if how == 'pop' else o[1] is not None):
            bad(text, ('ok', v if how == 'pop' else None), o)
    else:
        e = m
        if not match_err(o, IndexError):
            bad(text, ('err', IndexError), o)
        if list(y) != list(x):
            raise Violation(text + ' failed but changed the list', list(x), list(y))
    after(y, e, kind, text, post)


def after(y, e, kind, text, post):
    got = list(y)
    if not same(got, e):
        raise Violation('after ' + text, e, got)
    if len(y) != len(e):
        raise Violation('len after ' + text, len(e), len(y))
    try:
        for q in post:
            q(y, e, kind)
    except Violation as v:
        v.info['what'] = 'after %s: %s' % (text, v.info['what'])
        raise


def del_slice(x, m, kind, s, post):
    y = clone(x)
    o = outcome(y.__delitem__, s)
    e = list(m)
    del e[s]
    text = 'del x[%r:%r:%r]' % (s.start, s.stop, s.step)
    if o != ('ok', None):
        bad(text, ('ok', None), o)
    after(y, e, kind, text, post)


def q_delete(x, m, kind, full=True):
    n = len(m)
    for how in ('del', 'pop'):
        for i in list(range(-n - 2, n + 2)) + [BIG, -BIG] + (
                [None] if how == 'pop' else []):
            del_int(x, m, kind, i, how, (q_light, q_struct))
    pts, steps = slice_domain(n)
    if not full:
        pts = [None] + sorted({-n - 1, -n, -n // 2, -1, 0, 1, 2, n // 2, n - 1, n, n + 1})
    for a in pts:
        for b in pts:
            for c in steps:
                # follow-up reads on contiguous and on some strided deletions
                post = (q_light, q_struct) if (
                    c is None or c in (2, -1) and b is None) else ()
                del_slice(x, m, kind, slice(a, b, c), post)
    o = outcome(clone(x).__delitem__, slice(None, None, 0))
    if not match_err(o, ValueError):
        bad('del x[::0]', ('err', ValueError), o)


q_delete_few = partial(q_delete, full=False)


def pair_case(case, st):
    """Contiguous and strided slices of bulk lists of n values, index built or not:
    every (start, stop) pair, then reads."""
    kind, load, n, built, step = case
    k = KINDS[kind]
    x, m = bulk(kind, load, n, built)
    rng = range(n + 1)
    for a in rng:
        for b in (rng if step in (None, 2) else (0, n // 2, n, None)):
            if b is not None and (b < a if (step or 1) > 0 else False):
                continue
            s = slice(a, b, step)
            y = clone(x)
            e = list(m)
            del e[s]
            o = outcome(y.__delitem__, s)
            st.add('transitions')
            if o != ('ok', None) or not same(list(y), e) or len(y) != len(e):
                raise Violation('bulk n=%d load=%d built=%s: del x[%r:%r:%r]' % (
                    n, load, built, a, b, step), e, list(y))
            if (a + (b or 0)) % 3 == 0:
                after(y, e, k, 'del x[%r:%r:%r] (n=%d)' % (a, b, step, n),
                      (q_light, q_struct))
    st.kind(str(step))


def wide_case(case, st):
    """Many segments: every (start, stop) pair up to half of the list, contiguous and
    strided, then every position and every value looked up."""
    kind, n, layout, step, built, part = case
    k = KINDS[kind]
    x, m = layouts(kind, n, layout)
    if n % 37 == 0 and layout == 'spread' or len(m) != n:
        raise HarnessError('layout', case, len(m))
    if built:
        x[n // 2]
    for a in range(part, n, 4):
        for b in range(a + 1, n + 1):
            if b - a > n // 2 and b < n - 1 and a > 1:
                continue
            s = slice(a, b, step) if step > 0 else slice(b - 1, a - 1 if a else None, step)
            y = clone(x)
            e = list(m)
            gone = m[s]
            del e[s]
            text = '%r: del x[%r:%r:%r]' % (case, s.start, s.stop, s.step)
            o = outcome(y.__delitem__, s)
            st.add('transitions')
            if o != ('ok', None) or not same(list(y), e) or len(y) != len(e):
                raise Violation(text, e, list(y))
            if (b + a) % 5 and step != 1 and b - a > 9:
                continue
            with Quiet():
                o = outcome(y._check)
            if o[0] == 'err':
                raise Violation(text + ', then _check', 'passes', fmt(o))
            for i, v in enumerate(e):
                if y.bisect_left(v) != i or y[i] is not v or v not in y:
                    raise Violation('%s, then value %r' % (text, v), i,
                                    (y.bisect_left(v), y[i], v in y))
            if any(v in y for v in gone) or not same(list(y.irange(*e[:1])), e):
                raise Violation(text + ', then the deleted ones', False, True)
            y.add(k.elem(m[a].real + 1.0))
            y.update(gone)
            if sorted(map(k.okey, y)) != list(map(k.okey, y)) or len(y) != n + 1:
                raise Violation(text + ', then re-added', None, list(y))
    st.kind(layout)


def default_case(case, st):
    kind, n, s = case
    k = KINDS[kind]
    x, m = bulk(kind, None, n, True, default=True)
    y = x
    e = list(m)
    if isinstance(s, tuple):
        s = slice(*s)
        del e[s]
        o = outcome(y.__delitem__, s)
    else:
        del e[s]
        o = outcome(y.__delitem__, s)
    if o != ('ok', None):
        raise Violation('del x[%r] n=%d' % (s, n), fmt(('ok', None)), fmt(o))
    check_contents(y, e)
    for i in range(0, len(e), 97):
        if y[i] is not e[i]:
            raise Violation('x[%d] after del x[%r] n=%d' % (i, s, n), e[i], y[i])
    q_struct(y, e, k)


def other_case(case, st):
    """SortedSet and dict views delete from the whole container."""
    what, n, load, keyed = case
    key = (lambda v: -v) if keyed else None
    vals = [float(i) for i in range(n)]
    if what == 'set':
        c = SortedSet(key=key)
        c._reset(load)
        for v in vals:
            c.add(v)
    else:
        c = SortedDict(key)
        c._reset(load)
        for v in vals:
            c[v] = v + 0.5
    m = sorted(vals, key=key)
    pts, steps = slice_domain(n)
    if n > 8:
        pts = [None] + sorted({-n - 1, -n, -n // 2, -1, 0, 1, 2, 3, 4, n // 2, n - 1, n,
                               n + 1})
    jobs = [slice(a, b, s) for a in pts for b in pts for s in steps]
    jobs += list(range(-n - 2, n + 2)) + [BIG, -BIG]
    if what == 'set':
        jobs += [('pop', i) for i in range(-n - 2, n + 2)] + [('pop', None)]
    if what == 'dict':
        jobs = [('popitem', i) for i in range(-n - 2, n + 2)] + [('popitem', None)]
    for job in jobs:
        st.add('transitions')
        y = clone(c)
        e = list(m)
        exp_err = None
        if what == 'set':
            target = y
        elif what == 'dict':
            target = y
        else:
            target = getattr(y, what)()
        if isinstance(job, tuple):
            name, i = job
            j = -1 if i is None else i
            o = outcome(getattr(target, name), *(() if i is None else (i,)))
            if -n <= j < n:
                v = e.pop(j)
                want = ('ok', v if name == 'pop' else (v, v + 0.5))
                if o != want:
                    bad('%s.%s' % (what, job), want, o)
            else:
                exp_err = (IndexError, KeyError) if name == 'popitem' and not n \
                    else IndexError
        elif isinstance(job, slice):
            o = outcome(target.__delitem__, job)
            del e[job]
            if o != ('ok', None):
                bad('del %s[%r]' % (what, job), ('ok', None), o)
        else:
            o = outcome(target.__delitem__, job)
            if -n <= job < n:
                del e[job]
                if o != ('ok', None):
                    bad('del %s[%r]' % (what, job), ('ok', None), o)
            else:
                exp_err = IndexError
        if exp_err is not None:
            if not match_err(o, exp_err):
                bad('%s: %r' % (what, job), ('err', IndexError), o)
        if list(y) != e or len(y) != len(e) or any(v not in y for v in e) or any(
                v in y for v in m if v not in e):
            raise Violation('%s (n=%d) after deleting %r' % (what, n, job), e, list(y))
        if what != 'set' and (dict.__len__(y) != len(e) or any(
                y[v] != v + 0.5 for v in e)):
            raise Violation('%s (n=%d) items after deleting %r' % (what, n, job))
        if hasattr(y, '_check'):
            y._check()


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    cov.bfs('all-deletions', ListSys('list', 4, 13 if deep else 10, battery=(q_delete,)))
    cov.bfs('all-deletions-key', ListSys('key', 4, 12 if deep else 9,
                                         battery=(q_delete,)))
    cov.bfs('deletions-larger', ListSys('list', 4, 18 if deep else 15,
                                        battery=(q_delete_few,)))
    cov.bfs('deletions-larger-key', ListSys('key', 4, 16 if deep else 13,
                                            battery=(q_delete_few,)))
    cov.bfs('deletions-ties', ListSys('key', 4, 8 if deep else 6, distinct=False, kmax=2,
                                      emax=2, battery=(q_delete_few,)))
    cov.bfs('deletion-histories', ListSys(
        'list', 4, 13 if deep else 10, opset='full', slices='full',
        battery=(q_ints, q_struct)))
    cov.cases('bulk-pairs', 'bulk lists, every (start, stop) pair and strides',
              [(k, load, n, b, s) for k in ('list', 'key') for load in (4, 6)
               for n in (list(range(1, 40)) + ([64, 80] if deep else [48]))
               for b in (False, True)
               for s in (None, 2, 3, -1, -2)], pair_case)
    cov.cases('wide', 'many segments laid out in three ways, every (start, stop) up to '
              'half of the list', [
                  (k, n, lay, step, b, part) for k in ('list', 'key')
                  for n in ((68, 100, 131, 200) if deep else (68, 100))
                  for lay in ('bulk', 'spread', 'thin') for step in (1, 2, -1, -3)
                  for b in (False, True) for part in range(4)], wide_case)
    D = []
    for kind in ('list', 'key'):
        for n in (1000, 1001, 2001, 4001):
            D += [(kind, n, i) for i in (0, -1, 999 % n, 1000 % n, n // 2, -n)]
            D += [(kind, n, s) for s in (
                (0, 501, None), (500, 1003, None), (n // 3, n // 3 + n // 8, None),
                (n // 3, n // 3 + n // 8 + 2, None), (None, None, 2), (None, None, -3),
                (None, None, 7), (1, n - 1, None), (n - 600, None, None),
                (None, 600, None), (n - 2, 1, -1), (None, None, None),
                (None, None, -1), (10, 20, None), (20, 10, None))]
    cov.cases('default-load', 'default load factor', D, default_case)
    cov.cases('set-dict-views', 'SortedSet, SortedDict.popitem and key/item/value views',
              [(w, n, load, kd) for w in ('set', 'keys', 'items', 'values', 'dict')
               for n in list(range(0, 12)) + [17, 26] + ([40] if deep else [])
               for load in (4, 5) for kd in (False, True)], other_case)
    cov.cases('histories', 'growth x shrink x read patterns',
              hist_cases(('list', 'key'), (4, 5) if deep else (4,), 80 if deep else 50),
              partial(run_hist, battery=(q_light, q_struct)))
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts: '
              'deletions in every part of them, twice and thrice',
              runs_cases(('list', 'key'), (23, 51, 96, 181, 370) if deep else (23, 51, 96),
                         ('pop', 'del-1', 'cut', 'drain')),
              partial(ops_case, battery=(w_contents, w_read)), timeout=300)
    return cov.result()
