"""C11 SortedDict is a dict whose keys iterate in sorted order."""
from functools import partial
from ..core import Cov, SortedDict, Violation
from ..domains import assoc_case, assoc_cases
from ..dicts import FORMS, DictSys, q_check, q_mapping
from ..matrix import matrix_cases, matrix_large
from ..matrix import dict_case as matrix_dict_case


class Missing(SortedDict):
    """dict subclass hook: values for missing keys, not stored."""
    __module__ = 'sortedcontainers.harness'

    def __missing__(self, key):
        return ('missing', key)


class Counting(SortedDict):
    __module__ = 'sortedcontainers.harness'

    def __missing__(self, key):
        self[key] = 0
        return 0


def missing_case(case, st):
    """__missing__ is used by sd[k] only: get, in, pop, setdefault, peekitem ignore it."""
    keys, probe, cls = case
    C = {'plain': Missing, 'store': Counting}[cls]
    sd = C()
    sd._reset(4)
    m = {}
    for i, k in enumerate(keys):
        sd[k] = i
        m[k] = i
    ref = dict(m)

    def want(text, got, exp):
        if got != exp:
            raise Violation('%s with %r' % (text, case), exp, got)
    want('in', probe in sd, probe in m)
    want('get', sd.get(probe), m.get(probe))
    want('get2', sd.get(probe, 5), m.get(probe, 5))
    want('items', list(sd.items()), sorted(m.items()))
    if probe not in m:
        try:
            sd.pop(probe)
        except KeyError:
            pass
        else:
            raise Violation('pop(missing) with __missing__ %r' % (case,), 'KeyError')
        want('pop default', sd.pop(probe, 'd'), 'd')
        want('unchanged', list(sd.items()), sorted(m.items()))
        if cls == 'plain':
            want('[]', sd[probe], ('missing', probe))
            want('unchanged', list(sd.items()), sorted(m.items()))
        else:
            want('[]', sd[probe], 0)
            ref[probe] = 0
            want('stored', list(sd.items()), sorted(ref.items()))
            sd[probe] += 3
            ref[probe] += 3
        want('setdefault', sd.setdefault(probe, 9), ref.setdefault(probe, 9))
        want('final', list(sd.items()), sorted(ref.items()))
    else:
        want('[]', sd[probe], m[probe])
        want('setdefault', sd.setdefault(probe, 9), m[probe])
        want('pop', sd.pop(probe), m.pop(probe))
    sd._check()


def ctor_case(case, st):
    """Constructor and fromkeys argument forms against dict."""
    form, n, key = case
    keyf = {'none': None, 'neg': lambda k: -ord(k) if k else 0}[key]
    ks = ['b', 'a', '', 'c', 'b', 'e', 'd', 'a'][:n]
    pairs = [(k, i) for i, k in enumerate(ks)]
    kw = {k: 'kw' for k in ks[:2] if k}
    pre = {'none': [(), (None,)], 'neg': [(keyf,)]}[key]
    for p in pre:
        if form == 'pairs':
            sd, e = SortedDict(*p, pairs), dict(pairs)
        elif form == 'gen':
            sd, e = SortedDict(*p, (x for x in pairs)), dict(pairs)
        elif form == 'dict':
            sd, e = SortedDict(*p, dict(pairs)), dict(pairs)
        elif form == 'kw':
            sd, e = SortedDict(*p, **kw), dict(**kw)
        elif form == 'pairs+kw':
            sd, e = SortedDict(*p, pairs, **kw), dict(pairs, **kw)
        elif form == 'dict+kw':
            sd, e = SortedDict(*p, dict(pairs), **kw), dict(dict(pairs), **kw)
        elif form == 'sd':
            sd, e = SortedDict(*p, SortedDict(pairs)), dict(pairs)
        elif form == 'empty':
            sd, e = SortedDict(*p), {}
        elif form == 'fromkeys':
            sd, e = SortedDict.fromkeys(ks, 7), dict.fromkeys(ks, 7)
            keyf = None
        else:
            sd, e = SortedDict.fromkeys(iter(ks)), dict.fromkeys(ks)
            keyf = None
        exp = sorted(e.items(), key=lambda kv: keyf(kv[0]) if keyf else kv[0])
        if list(sd.items()) != exp or dict(sd) != e or len(sd) != len(e):
            raise Violation('SortedDict %r' % (case,), exp, list(sd.items()))
        if list(sd) != [k for k, _ in exp] or list(dict.keys(sd)) != list(e):
            if set(dict.keys(sd)) != set(e):
                raise Violation('SortedDict %r keys' % (case,), exp, list(sd))
        sd._check()
        if sd.key is not keyf:
            raise Violation('sd.key', keyf, sd.key)


class Sub(SortedDict):
    pass


VALUES = (0, 0.0, '', False, (), b'', None, 7, 'v', [], {}, set(), float('nan'), Ellipsis,
          NotImplemented, len)


def fromkeys_case(case, st):
    """fromkeys: one and the same value object under every key, whatever it is."""
    n, i, cls, form = case
    C = Sub if cls == 'sub' else SortedDict
    ks = ['b', 'a', '', 'c', 'b', 'e', 'd', 'a'][:n]
    v = VALUES[i]
    it = {'list': list, 'iter': iter, 'tuple': tuple, 'set': set, 'dict': dict.fromkeys,
          'keys': lambda s: dict.fromkeys(s).keys(),
          'sd': lambda s: SortedDict.fromkeys(s, 1)}[form](ks)
    for f in (C.fromkeys, C().fromkeys):
        if form == 'iter':
            it = iter(ks)
        sd = f(it, v)
        if type(sd) is not C or list(sd) != sorted(set(ks)) or sd.key is not None:
            raise Violation('%r fromkeys' % (case,), sorted(set(ks)), sd)
        for k in ks:
            for g in (sd[k], sd.get(k, 'no'), dict(sd)[k]):
                if g is not v:
                    raise Violation('%r fromkeys value of %r' % (case, k), v, g)
        if any(w is not v for w in sd.values()) or any(w is not v for _, w in sd.items()):
            raise Violation('%r fromkeys values' % (case,), v, list(sd.values()))
        sd._check()


def ops_case(case, st):
    """| and reflected | with mappings, == and !=, on every small pair."""
    from collections import OrderedDict
    a, b = case
    A = {k: ('a', k) for k in a}
    B = {k: ('b', k) for k in b}
    sa, sb = SortedDict(A), SortedDict(B)
    from ..dicts import AMapping
    for text, got, exp in (
            ('sd | sd', sa | sb, {**A, **B}), ('sd | dict', sa | B, {**A, **B}),
            ('dict | sd', A | sb, {**A, **B}),
            ('sd | OrderedDict', sa | OrderedDict(B), {**A, **B}),
            ('OrderedDict | sd', OrderedDict(A) | sb, {**A, **B}),
            ('sd | Mapping', sa | AMapping(B), {**A, **B}),
            ('Mapping | sd', AMapping(A) | sb, {**A, **B})):
        if dict(got) != exp:
            raise Violation('%s %r' % (text, case), exp, dict(got))
        if isinstance(got, SortedDict):
            if list(got.items()) != sorted(exp.items()):
                raise Violation('%s %r order' % (text, case), sorted(exp.items()),
                                list(got.items()))
            got._check()
        elif text.startswith('sd') or text in ('dict | sd', 'Mapping | sd'):
            raise Violation('%s type' % text, SortedDict, type(got))
    if list(sa.items()) != sorted(A.items()) or list(sb.items()) != sorted(B.items()):
        raise Violation('operands of | changed %r' % (case,))
    for x, y in ((sa, sb), (sa, B), (A, sb)):
        if (x == y) != (A == B) or (x != y) != (A != B):
            raise Violation('== %r' % (case,), A == B, x == y)
    for bad in (5, None, [1], 'ab'):
        for f in (lambda: sa | bad, lambda: bad | sa):
            try:
                f()
            except TypeError:
                continue
            raise Violation('sd | %r' % (bad,), 'TypeError')
    for f in (lambda: sa < sb, lambda: sa >= sb):
        try:
            f()
        except TypeError:
            continue
        raise Violation('sd < sd', 'TypeError')


def big_case(case, st):
    """Dicts beyond the search's sizes: every key popped, deleted, peeked."""
    n, load, order, keyed = case
    key = (lambda k: -k) if keyed else None
    ks = list(range(n))
    if order == 'desc':
        ks.reverse()
    elif order == 'mix':
        ks = ks[::3] + ks[1::3][::-1] + ks[2::3]
    sd = SortedDict(key)
    if load:
        sd._reset(load)
    m = {}
    for k in ks:
        sd[k] = k * 2
        m[k] = k * 2
    s = sorted(m, key=key)
    step = 0
    while s:
        i = (step * 7) % len(s)
        k = s[i]
        if sd.peekitem(i) != (k, m[k]):
            raise Violation('%r peekitem(%d)' % (case, i), (k, m[k]), sd.peekitem(i))
        how = step % 4
        if how == 0:
            del sd[k]
        elif how == 1:
            if sd.pop(k) != m[k]:
                raise Violation('pop')
        elif how == 2:
            if sd.popitem(i) != (k, m[k]):
                raise Violation('%r popitem(%d)' % (case, i))
        else:
            del sd.keys()[i]
        s.pop(i)
        del m[k]
        step += 1
        if step % 3 == 0 or n < 60:
            if list(sd) != s or len(sd) != len(s):
                raise Violation('%r after removing %r' % (case, k), s, list(sd))
            if list(sd.values()) != [m[q] for q in s]:
                raise Violation('%r values' % (case,))
        if step % 5 == 0:
            q = n + step
            sd.setdefault(q, 1)
            m[q] = 1
            s = sorted(m, key=key)
            if step > 4 * n:
                break
    sd._check()


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_mapping, q_check)
    cov.bfs('num-full', DictSys('num', 4, 15 if deep else 13, 'full', battery=B))
    cov.bfs('num-forms', DictSys('num', 4, 11 if deep else 9, 'full', battery=B,
                                 forms=FORMS))
    cov.bfs('num-core', DictSys('num', 4, 24 if deep else 19, battery=B))
    cov.bfs('key-full', DictSys('key', 4, 13 if deep else 11, 'full', battery=B))
    cov.bfs('key-ties', DictSys('key', 4, 8 if deep else 6, 'full', emax=3, kmax=2,
                                battery=B))
    cov.bfs('values', DictSys('num', 4, 6 if deep else 5, 'full',
                              values=(None, 0, 'v'), battery=B))
    cov.bfs('strings', DictSys('str', 4, 5, 'full', values=(None, '') if deep else
                               (None,), battery=B))
    cov.cases('missing', '__missing__ subclasses, all key subsets of 0..4 and probes',
              [([k for k in range(5) if s >> k & 1], p, c) for s in range(32)
               for p in range(6) for c in ('plain', 'store')], missing_case)
    cov.cases('constructors', 'constructor and fromkeys forms',
              [(f, n, k) for f in ('pairs', 'gen', 'dict', 'kw', 'pairs+kw', 'dict+kw',
                                   'sd', 'empty', 'fromkeys', 'fromkeys-none')
               for n in range(9) for k in ('none', 'neg')], ctor_case)
    subs = [[k for k in range(4) if s >> k & 1] for s in range(16)]
    cov.cases('operators', '| and == on all pairs of subsets of 4 keys',
              [(a, b) for a in subs for b in subs], ops_case)
    cov.cases('big', 'larger dicts drained by every removing call',
              [(n, load, o, kd) for n in (5, 17, 33, 60, 120) + ((400,) if deep else ())
               for load in (4, 5) for o in ('asc', 'desc', 'mix')
               for kd in (False, True)] + [
                   (n, None, o, kd) for n in (1001, 2100) for o in ('asc', 'mix')
                   for kd in (False, True)], big_case)
    cov.cases('domains', 'keys of many kinds: every history of %d calls' %
              (3 if deep else 2), assoc_cases('dict', 3 if deep else 2), assoc_case)
    cov.cases('fromkeys', 'fromkeys x values (falsy, mutable, odd) x key iterables',
              [(n, i, c, f) for n in range(9) for i in range(len(VALUES))
               for c in ('base', 'sub')
               for f in ('list', 'iter', 'tuple', 'set', 'dict', 'keys', 'sd')],
              fromkeys_case)
    cov.cases('operands', 'every form of operand x sizes x overlap x load: dict',
              matrix_cases(deep, ('none', 'neg', 'mod'), (4, None)),
              partial(matrix_dict_case, part='contents'), timeout=300)
    cov.cases('operands-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('none', 'neg', 'mod')],
              partial(matrix_dict_case, part='contents'), timeout=300)
    return cov.result()
