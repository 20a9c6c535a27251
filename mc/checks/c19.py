"""C19 Containers share no state with arguments, results or other instances."""
from functools import partial
import copy
import itertools
import operator
import pickle
from collections import deque
from operator import is_

from ..core import (Cov, SortedDict, SortedKeyList, SortedList, SortedSet, Violation,
                    clone, digest)
from ..dicts import AMapping, DictSys, check_dict, q_mapping
from ..dicts import q_check as d_check
from ..keys import ASC, NEG
from ..lists import ListSys, check_contents, negreal, q_light, q_struct
from ..sets import SetSys, check_set, q_setside
from ..sets import q_check as s_check
from ..matrix import matrix_cases, matrix_large
from ..matrix import list_case as matrix_list_case
from ..matrix import dict_case as matrix_dict_case
from ..matrix import set_case as matrix_set_case

SENT = object()


def wreck(r):
    """Mutate a plain list in every way."""
    r.reverse()
    r.append(SENT)
    r.insert(0, SENT)
    r[1:2] = [SENT, SENT]
    r[0] = None
    del r[-1]
    r.extend([SENT] * 3)
    r *= 2
    r.clear()
    r += [SENT] * 40


def unchanged(what, ok):
    if not ok:
        raise Violation(what, 'unchanged', 'changed')


# --------------------------------------------------------------------------
# lists
# --------------------------------------------------------------------------

MUT = {'add', 'pop', 'remove', 'discard', 'del', 'dels', 'clear', 'update', 'iadd',
       'imul'}


class LSys(ListSys):
    """At every state: slices are independent lists; every derived container is
    independent of the original under every mutator of either."""

    def mutators(self, x, m, few):
        n = len(m)
        k = self.kind
        ks, gaps = self.codes(m)
        for g in (gaps[0], gaps[-1], gaps[len(gaps) // 2]):
            yield ('add', g, 0)
        for i in (sorted({0, n // 2, n - 1}) if few else range(n)):
            if n:
                yield ('pop', i)
                yield ('remove',) + k.code(m[i])
        yield ('clear',)
        yield ('dels', 1, n - 1, None)
        yield ('dels', None, None, 2)
        yield ('update', tuple((gaps[-1] + i, 0) for i in range(5)))
        yield ('iadd', ((gaps[0], 0),))
        yield ('imul', 2)
        yield ('imul', 0)
        yield ('reset', 7)

    def pair(self, x, m, r, mr, text):
        """x and r: mutate either, the other stays as it was."""
        vm = {}
        for who in (0, 1):
            a, ma, b, mb = (x, m, r, mr) if who == 0 else (r, mr, x, m)
            db = digest(b, vm)
            for op in self.mutators(a, ma, True):
                ca, cb = clone([a, b])
                self.step(ca, ma, op)
                try:
                    check_contents(cb, mb)
                    if digest(cb, vm) != db:
                        q_light(cb, mb, self.kind)
                        q_struct(cb, mb, self.kind)
                except Violation as v:
                    raise Violation(
                        'r = %s; %s changed the other container' % (
                            text, self.render(op).replace('x', 'xr'[who])),
                        v.info['expected'], v.info['actual'])
                self.n += 1

    def on_state(self, x, m, st):
        kind = self.kind
        n = len(m)
        self.n = 0
        d0 = digest(x)
        # slices
        y = clone(x)
        pts = [None] + sorted({0, 1, 2, 3, 4, n // 2, n - 2, n - 1, n, -1, -3})
        for a in pts:
            for b in pts:
                for c in (None, 2, -1):
                    s = slice(a, b, c)
                    r = y[s]
                    wreck(r)
                    self.n += 1
                    if digest(y) != d0:
                        self.compare(y, m, 'mutating x[%r]' % (s,))
                    if y[s] != m[s]:
                        raise Violation('x[%r] again, after mutating the first result'
                                        % (s,), m[s], y[s])
        self.compare(y, m, 'mutating slices')
        y = clone(x)
        for s in (slice(None), slice(0, n), slice(0, 1), slice(0, 4), slice(n // 2, n),
                  slice(None, None, -1), slice(None, None, 2)):
            for op in self.mutators(x, m, True):
                z = clone(x)
                r = z[s]
                self.step(z, m, op)
                self.n += 1
                if r != m[s]:
                    raise Violation('r = x[%r]; %s changed r' % (s, self.render(op)),
                                    m[s], r)
        # derived containers
        k = self.kind
        skey = (lambda l: sorted(l, key=k.okey))
        extra = [k.elem(v) for v in (0.5, 7.5)]
        derive = [
            ('x.copy()', lambda y: y.copy(), m),
            ('copy.copy(x)', copy.copy, m),
            ('type(x)(x)', lambda y: k.make(y), m),
            ('x + []', lambda y: y + [], m),
            ('x + other', lambda y: y + extra, skey(m + extra)),
            ('x + x', lambda y: y + y, skey(m + m)),
            ('x * 1', lambda y: y * 1, m),
            ('1 * x', lambda y: 1 * y, m),
            ('x * 2', lambda y: y * 2, skey(m * 2)),
        ]
        for text, fn, mr in derive:
            y = clone(x)
            r = fn(y)
            if r is y:
                raise Violation('%s is x itself' % text)
            self.pair(y, m, r, mr, text)
        # iterators over the list that are dropped leave nothing behind
        # self-referential arguments
        snaps = [
            ('x', lambda y: y, m),
            ('iter(x)', iter, m),
            ('reversed(x)', reversed, m[::-1]),
            ('x.islice(1, 3)', lambda y: y.islice(1, 3), m[1:3]),
            ('x.islice()', lambda y: y.islice(), m),
            ('x.islice(reverse=True)', lambda y: y.islice(reverse=True), m[::-1]),
            ('x.irange()', lambda y: y.irange(), m),
            ('x.irange(reverse=True)', lambda y: y.irange(reverse=True), m[::-1]),
            ('x[:]', lambda y: y[:], m),
            ('(e for e in x)', lambda y: (e for e in y), m),
            ('filter(None, x)', lambda y: (e for e in y if e), [e for e in m if e]),
            ('map over x and x', lambda y: itertools.chain(y, y), m + m),
        ]
        if m:
            snaps.append(('x.irange(x[1])', lambda y: y.irange(m[n // 2]),
                          [e for e in m if not k.okey(e) < k.okey(m[n // 2])]))
        for text, fn, val in snaps:
            exp = skey(m + list(val))
            for name in ('update', '+=', '+'):
                y = clone(x)
                if name == 'update':
                    y.update(fn(y))
                    r = y
                elif name == '+=':
                    r = y
                    r += fn(y)
                else:
                    if text in ('x', 'x[:]'):
                        r = y + fn(y)
                        check_contents(y, m)
                    else:
                        continue
                self.n += 1
                self.compare(r, exp, 'x.%s(%s)' % (name, text))
        st.add('transitions', self.n)
        st.add('batteries')

    def compare(self, y, m, text):
        try:
            check_contents(y, m)
            q_light(y, m, self.kind)
            q_struct(y, m, self.kind)
        except Violation as v:
            v.info['what'] = 'after %s: %s' % (text, v.info['what'])
            raise


# --------------------------------------------------------------------------
# sets
# --------------------------------------------------------------------------

SETOPS = [('|', operator.or_), ('&', operator.and_), ('-', operator.sub),
          ('^', operator.xor)]


class SSys(SetSys):
    def mutators(self, m):
        k = self.kind
        have = sorted((k.code(v) for v in m))
        yield ('add', 50.5, 0)
        yield ('add', -50.5, 0)
        for c in sorted(set(have[:1] + have[-1:] + have[len(have) // 2:][:1])):
            yield ('discard',) + c
            yield ('remove',) + c
        if m:
            yield ('pop',)
            yield ('pop', 0)
            yield ('del', len(m) // 2)
        yield ('dels', 0, 2, None)
        yield ('clear',)
        yield ('inplace', 'update', 'set', ((60.5, 0), (61.5, 0)))
        yield ('inplace', 'update', 'gen', tuple((70.5 + i, 0) for i in range(9)))
        yield ('inplace', 'intersection_update', 'set', tuple(have[1:]))
        yield ('inplace', 'difference_update', 'set', tuple(have[:1]))
        yield ('inplace', 'difference_update', 'set', tuple(have))
        yield ('inplace', 'symmetric_difference_update', 'set',
               tuple(have[:1]) + ((80.5, 0),))

    def pair(self, b, m, rb, mr, text):
        for who in (0, 1):
            a, ma, o, mo = (b, m, rb, mr) if who == 0 else (rb, mr, b, m)
            do = digest(o)
            for op in self.mutators(ma):
                ca, co = clone([a, o])
                self.step(ca, ma, op)
                self.n += 1
                try:
                    check_set(co.ss, mo, self.kind)
                    if digest(co) != do:
                        q_setside(co, mo, self.kind)
                        s_check(co, mo, self.kind)
                except Violation as v:
                    raise Violation('r = %s; %s changed the other set' % (
                        text, self.render(op).replace('ss', ('ss', 'r')[who], 1)),
                        v.info['expected'], v.info['actual'])

    def after(self, y, m, text):
        try:
            check_set(y.ss, m, self.kind)
            d = digest(y)
            if d in self.known:
                return
            s_check(y, m, self.kind)
            q_setside(y, m, self.kind)
            self.known.add(d)
        except Violation as v:
            v.info['what'] = 'after %s: %s' % (text, v.info['what'])
            raise

    def on_state(self, b, m, st):
        from ..sets import SBundle
        k = self.kind
        self.n = 0
        self.known = set()
        order = list(b.ss)
        n = len(order)

        def mk(vals):
            return SortedSet(vals, key=k.key)
        rest = {k.elem(v) for v in (0.5, 9.5)} | set(order[:1])
        empty = set()
        derive = [('ss.copy()', lambda s: s.copy(), m), ('copy.copy(ss)', copy.copy, m),
                  ('SortedSet(ss)', mk, m)]
        for sym, op in SETOPS:
            for nm, o in (('set()', empty), ('{...}', rest), ('set(ss)', set(m))):
                derive.append(('ss %s %s' % (sym, nm),
                               lambda s, op=op, o=o: op(s, set(o)), op(m, o)))
                derive.append(('%s %s ss' % (nm, sym),
                               lambda s, op=op, o=o: op(set(o), s), op(o, m)))
            derive.append(('ss %s ss' % sym, lambda s, op=op: op(s, s), op(m, m)))
        for nm in ('union', 'intersection', 'difference', 'symmetric_difference'):
            f = getattr(SortedSet, nm)
            if nm != 'symmetric_difference':
                derive.append(('ss.%s()' % nm, lambda s, f=f: f(s), m))
                derive.append(('ss.%s([], [])' % nm,
                               lambda s, f=f: f(s, [], []), getattr(m, nm)([], [])))
            derive.append(('ss.%s(ss)' % nm, lambda s, f=f: f(s, s),
                           getattr(m, nm)(m)))
            derive.append(('ss.%s(iter(ss))' % nm, lambda s, f=f: f(s, iter(s)),
                           getattr(m, nm)(m)))
        for text, fn, mr in derive:
            y = clone(b)
            r = fn(y.ss)
            if r is y.ss:
                raise Violation('%s is ss itself' % text)
            if not isinstance(r, SortedSet):
                raise Violation(text, 'a SortedSet', type(r))
            self.pair(y, m, SBundle(r, k.keyed), set(mr), text)
        # slices
        y = clone(b)
        d0 = digest(y)
        for a in (None, 0, 1, n // 2, -2):
            for c in (None, 1, n // 2, n, -1):
                for s in (None, 2, -1):
                    r = y.ss[a:c:s]
                    wreck(r)
                    self.n += 1
                    if digest(y) != d0:
                        self.after(clone(y), m, 'mutating ss[%r:%r:%r]' % (a, c, s))
                    if y.ss[a:c:s] != order[a:c:s]:
                        raise Violation('ss[%r:%r:%r] again' % (a, c, s),
                                        order[a:c:s], y.ss[a:c:s])
        # arguments are neither changed nor retained
        for base in ([], order[:2], order[1:], order, order + [k.elem(77.0)],
                     [k.elem(88.0 + i) for i in range(9)]):
            for form in ('set', 'list', 'ss'):
                for nm in ('update', 'intersection_update', 'difference_update',
                           'symmetric_difference_update', '|=', '&=', '-=', '^='):
                    y = clone(b)
                    sb = set(base)
                    arg = {'set': set, 'list': list, 'ss': mk}[form](base)
                    if nm[-1] == '=':
                        if form == 'list':
                            continue
                        r = y.ss
                        f = {'|=': operator.ior, '&=': operator.iand,
                             '-=': operator.isub, '^=': operator.ixor}[nm]
                        f(r, arg)
                        e = {'|=': m | sb, '&=': m & sb, '-=': m - sb,
                             '^=': m ^ sb}[nm]
                    else:
                        getattr(y.ss, nm)(arg)
                        e = set(m)
                        getattr(e, nm)(sb)
                    self.n += 1
                    if len(arg) != len(base) or set(arg) != sb or (
                            form == 'list' and arg != base):
                        raise Violation('ss.%s(arg) changed its argument' % nm, base,
                                        arg)
                    for z in (arg, y.ss):
                        # mutate the argument, then look at ss; and the reverse
                        if z is arg:
                            w = clone([y, arg])
                            w[1].clear()
                            self.after(w[0], e, 'ss.%s(arg); arg.clear()' % nm)
                            w = clone([y, arg])
                            getattr(w[1], 'append' if form == 'list' else 'add')(
                                k.elem(99.0))
                            self.after(w[0], e, 'ss.%s(arg); arg.add(v)' % nm)
                        else:
                            w = clone([y, arg])
                            w[0].ss.clear()
                            w[0].ss.add(k.elem(98.0))
                            if len(w[1]) != len(base) or set(w[1]) != sb:
                                raise Violation(
                                    'ss.%s(arg); ss.clear() changed arg' % nm,
                                    base, w[1])
        # self-referential arguments
        snaps = [('ss', lambda s: s, m), ('iter(ss)', iter, m),
                 ('reversed(ss)', reversed, m),
                 ('ss[1:]', lambda s: s[1:], set(order[1:])),
                 ('ss.islice(1)', lambda s: s.islice(1), set(order[1:])),
                 ('ss.islice(0, 2, True)', lambda s: s.islice(0, 2, True),
                  set(order[:2])),
                 ('ss.irange()', lambda s: s.irange(), m),
                 ('ss.irange(reverse=True)', lambda s: s.irange(reverse=True), m),
                 ('(v for v in ss)', lambda s: (v for v in s), m),
                 ('(v for v in ss if v in ss)', lambda s: (v for v in s if v in s), m),
                 ('ss.copy()', lambda s: s.copy(), m)]
        for text, fn, val in snaps:
            for nm in ('update', 'intersection_update', 'difference_update',
                       'symmetric_difference_update'):
                y = clone(b)
                getattr(y.ss, nm)(fn(y.ss))
                e = set(m)
                getattr(e, nm)(set(val))
                self.n += 1
                self.after(y, e, 'ss.%s(%s)' % (nm, text))
                if nm[0] != 's':
                    y = clone(b)
                    getattr(y.ss, nm)(fn(y.ss), fn(y.ss))
                    self.n += 1
                    self.after(y, e, 'ss.%s(%s, %s)' % (nm, text, text))
        for nm, f in (('|=', operator.ior), ('&=', operator.iand),
                      ('-=', operator.isub), ('^=', operator.ixor)):
            y = clone(b)
            f(y.ss, y.ss)
            self.n += 1
            self.after(y, m if nm in '|=&=' else set(), 'ss %s ss' % nm)
        st.add('transitions', self.n)
        st.add('batteries')


# --------------------------------------------------------------------------
# dicts
# --------------------------------------------------------------------------

class DSys(DictSys):
    def mutators(self, m):
        k = self.kind
        have = sorted(k.code(v) for v in m)
        yield ('set', 50.5, 0, 'new')
        yield ('set', -50.5, 0, 'new')
        for c in sorted(set(have[:1] + have[-1:] + have[len(have) // 2:][:1])):
            yield ('set', c[0], c[1], 'changed')
            yield ('delk',) + c
            yield ('pop',) + c + ('none',)
        if m:
            yield ('popitem',)
            yield ('popitem', 0)
            yield ('viewdel', 0, 0)
            yield ('viewslice', 1, 0, 2, None)
        yield ('setdef', 60.5, 0, 'new')
        yield ('clear',)
        yield ('update', 'dict', ((70.5, 0, 'new'),) + tuple(
            c + ('changed',) for c in have[:1]))
        yield ('update', 'ior', tuple((80.5 + i, 0, 'new') for i in range(9)))

    def pair(self, b, m, rb, mr, text):
        for who in (0, 1):
            a, ma, o, mo = (b, m, rb, mr) if who == 0 else (rb, mr, b, m)
            do = digest(o)
            for op in self.mutators(ma):
                ca, co = clone([a, o])
                self.step(ca, ma, op)
                self.n += 1
                try:
                    check_dict(co.sd, mo, self.kind)
                    if digest(co) != do:
                        q_mapping(co, mo, self.kind)
                        d_check(co, mo, self.kind)
                except Violation as v:
                    raise Violation('r = %s; %s changed the other dict' % (
                        text, self.render(op)), v.info['expected'], v.info['actual'])

    def after(self, y, m, text):
        try:
            check_dict(y.sd, m, self.kind)
            d = digest(y)
            if d in self.known:
                return
            d_check(y, m, self.kind)
            q_mapping(y, m, self.kind)
            self.known.add(d)
        except Violation as v:
            v.info['what'] = 'after %s: %s' % (text, v.info['what'])
            raise

    def on_state(self, b, m, st):
        from ..dicts import Bundle
        k = self.kind
        self.n = 0
        self.known = set()
        order = list(b.sd)
        n = len(order)

        def mk(*a):
            return SortedDict(k.key, *a) if k.keyed else SortedDict(*a)
        extra = {k.elem(0.5): 'x'}
        if order:
            extra[order[0]] = 'y'
        derive = [('sd.copy()', lambda s: s.copy(), m), ('copy.copy(sd)', copy.copy, m),
                  ('SortedDict(sd)', mk, m),
                  ('SortedDict(sd.items())', lambda s: mk(s.items()), m),
                  ('sd | {}', lambda s: s | {}, m),
                  ('{} | sd', lambda s: {} | s, m),
                  ('sd | extra', lambda s: s | extra, {**m, **extra}),
                  ('extra | sd', lambda s: extra | s, {**extra, **m}),
                  ('sd | sd', lambda s: s | s, m)]
        if not k.keyed:
            derive.append(('fromkeys(sd, 1)', lambda s: SortedDict.fromkeys(s, 1),
                           dict.fromkeys(m, 1)))
            derive.append(('fromkeys(sd.keys())',
                           lambda s: SortedDict.fromkeys(s.keys()), dict.fromkeys(m)))
        for text, fn, mr in derive:
            y = clone(b)
            r = fn(y.sd)
            if r is y.sd or r is extra:
                raise Violation('%s is one of its operands' % text)
            if not isinstance(r, SortedDict):
                raise Violation(text, 'a SortedDict', type(r))
            self.pair(y, m, Bundle(r), dict(mr), text)
        if len(extra) != (2 if order else 1):
            raise Violation('sd | extra changed extra', None, extra)
        # slices of views, view set algebra
        y = clone(b)
        d0 = digest(y)
        refs = (order, [(q, m[q]) for q in order], [m[q] for q in order])
        for v, ref, nm in zip(y.views, refs, ('keys', 'items', 'values')):
            for a in (None, 0, 1, n // 2, -2):
                for c in (None, 1, n // 2, n, -1):
                    for s in (None, 2, -1):
                        wreck(v[a:c:s])
                        self.n += 1
                        if digest(y) != d0:
                            self.after(clone(y), m, 'mutating a slice of sd.%s()' % nm)
                        if v[a:c:s] != ref[a:c:s]:
                            raise Violation('sd.%s()[%r:%r:%r] again' % (nm, a, c, s),
                                            ref[a:c:s], v[a:c:s])
            if nm != 'values' and not k.keyed:
                for sym, op in SETOPS:
                    for arg in (set(), set(ref), set(ref[:1])):
                        z = clone(b)
                        zv = z.views[0 if nm == 'keys' else 1]
                        keep = set(arg)
                        r = op(zv, arg)
                        r.clear()
                        r.update(ref[:1])
                        self.n += 1
                        self.after(z, m, 'mutating sd.%s() %s set' % (nm, sym))
                        if arg != keep:
                            raise Violation('sd.%s() %s arg changed arg' % (nm, sym),
                                            keep, arg)
        # arguments are neither changed nor retained
        fr = [k.elem(88.0 + i) for i in range(9)]
        for base in ({}, {q: 'z' for q in order[:2]}, {k.elem(77.0): 'n'},
                     {q: 'z' for q in order[1:] + fr[:2]}, {q: 'z' for q in fr}):
            for form in ('dict', 'pairs', 'lists', 'sd', 'map'):
                for nm in ('update', '|=', 'new'):
                    if nm == '|=' and form == 'map':
                        continue
                    inner = dict(base)
                    arg = {'dict': lambda: inner, 'pairs': lambda: list(inner.items()),
                           'lists': lambda: [list(p) for p in inner.items()],
                           'sd': lambda: mk(inner), 'map': lambda: AMapping(inner)
                           }[form]()
                    was = list(arg.items()) if hasattr(arg, 'items') else copy.copy(arg)
                    y = clone(b)
                    e = {**m, **base}
                    if nm == 'update':
                        y.sd.update(arg)
                    elif nm == '|=':
                        y.sd = operator.ior(y.sd, arg)
                    else:
                        y = Bundle(mk(arg))
                        e = dict(base)
                    self.n += 1
                    text = 'sd.%s(arg)' % nm
                    now = list(arg.items()) if hasattr(arg, 'items') else arg
                    if now != was:
                        raise Violation('%s changed its argument' % text, was, now)
                    tgt = inner if form == 'map' else arg
                    w = clone([y, tgt])
                    w[1].clear()
                    self.after(w[0], e, text + '; arg.clear()')
                    if form in ('dict', 'sd'):
                        w = clone([y, tgt])
                        w[1][k.elem(99.0)] = 1
                        for q in base:
                            w[1][q] = 'other'
                        self.after(w[0], e, text + '; arg[k] = v')
                    elif form == 'lists':
                        w = clone([y, tgt])
                        for p in w[1]:
                            p[1] = 'other'
                            p[0] = k.elem(-99.0)
                        self.after(w[0], e, text + '; mutating the pairs')
                    w = clone([y, tgt])
                    for q in list(w[0].sd):
                        w[0].sd[q] = 'other'
                    w[0].sd.clear()
                    w[0].sd[k.elem(98.0)] = 2
                    now = list(w[1].items()) if hasattr(w[1], 'items') else w[1]
                    if now != was:
                        raise Violation(text + '; sd.clear() changed arg', was, now)
        # self-referential arguments
        far = {q: q + 200 for q in order}
        snaps = [('sd', lambda s: s, m), ('sd.items()', lambda s: s.items(), m),
                 ('iter(sd.items())', lambda s: iter(s.items()), m),
                 ('reversed(sd.items())', lambda s: reversed(s.items()), m),
                 ('zip(sd.keys(), sd.values())',
                  lambda s: zip(s.keys(), s.values()), m),
                 ('zip(sd, reversed(sd.values()))',
                  lambda s: zip(s, reversed(s.values())),
                  dict(zip(order, [m[q] for q in order][::-1]))),
                 ('((k, sd[k]) for k in sd)', lambda s: ((q, s[q]) for q in s), m),
                 ('((k, sd.index(k)) for k in sd)',
                  lambda s: ((q, order.index(q)) for q in s),
                  {q: i for i, q in enumerate(order)}),
                 ('((shifted, v) for k, v in sd.items())',
                  lambda s: ((far[q], v) for q, v in s.items()),
                  {far[q]: v for q, v in m.items()}),
                 ('((k, 0) for k in sd.islice(1))',
                  lambda s: ((q, 0) for q in s.islice(1)), {q: 0 for q in order[1:]}),
                 ('((k, 0) for k in sd.irange())',
                  lambda s: ((q, 0) for q in s.irange()), {q: 0 for q in order}),
                 ('sd.items()[:]', lambda s: s.items()[:], m)]
        for text, fn, val in snaps:
            for nm in ('update', '|='):
                y = clone(b)
                if nm == 'update':
                    y.sd.update(fn(y.sd))
                else:
                    y.sd = operator.ior(y.sd, fn(y.sd))
                self.n += 1
                self.after(y, {**m, **val}, 'sd.%s(%s)' % (nm, text))
        st.add('transitions', self.n)
        st.add('batteries')


# --------------------------------------------------------------------------
# two instances, every interleaving, nothing cloned
# --------------------------------------------------------------------------

def opsfor(what):
    if what in ('list', 'key'):
        return [('add', lambda c, i: c.add(i + 0.25)),
                ('add0', lambda c, i: c.add(-1.0 - i)),
                ('pop', lambda c, i: c.pop() if c else None),
                ('pop0', lambda c, i: c.pop(0) if c else None),
                ('mid', lambda c, i: c[len(c) // 2] if c else None),
                ('clear', lambda c, i: c.clear()),
                ('update', lambda c, i: c.update([50.0 + i + j for j in range(5)]))]
    if what == 'set':
        return [('add', lambda c, i: c.add(i + 0.25)),
                ('add0', lambda c, i: c.add(-1.0 - i)),
                ('pop', lambda c, i: c.pop() if c else None),
                ('discard', lambda c, i: c.discard(c[0]) if c else None),
                ('ior', lambda c, i: c.update([60.0 + i])),
                ('clear', lambda c, i: c.clear()),
                ('isub', lambda c, i: c.difference_update(list(c)[:2] + [i]))]
    return [('set', lambda c, i: c.__setitem__(i + 0.25, i)),
            ('setdefault', lambda c, i: c.setdefault(-1.0 - i, i)),
            ('popitem', lambda c, i: c.popitem() if c else None),
            ('del', lambda c, i: c.__delitem__(next(iter(c))) if c else None),
            ('peek', lambda c, i: c.peekitem(len(c) // 2) if c else None),
            ('clear', lambda c, i: c.clear()),
            ('update', lambda c, i: c.update({50.0 + i + j: i for j in range(5)}))]


class Plain:
    """Reference: same calls on a sorted plain list (or dict of items)."""

    def __init__(self, what, vals):
        self.what = what
        self.key = negreal if what == 'key' else None
        self.d = {v: 'v' for v in vals} if what == 'dict' else None
        self.l = sorted(vals, key=self.key)

    def norm(self):
        if self.what == 'set':
            self.l = sorted(set(self.l))
        else:
            self.l.sort(key=self.key)

    def do(self, name, i):
        l = self.l
        if self.what == 'dict':
            return self.dict_do(name, i)
        if name == 'add':
            l.append(i + 0.25)
        elif name == 'add0':
            l.append(-1.0 - i)
        elif name == 'pop':
            return l.pop() if l else None
        elif name == 'pop0':
            return l.pop(0) if l else None
        elif name == 'discard':
            if l:
                del l[0]
        elif name == 'mid':
            return l[len(l) // 2] if l else None
        elif name == 'clear':
            self.l = []
        elif name == 'update':
            l.extend([50.0 + i + j for j in range(5)])
        elif name == 'ior':
            l.append(60.0 + i)
        elif name == 'isub':
            self.l = [v for v in l[2:] if v != i]
        self.norm()

    def dict_do(self, name, i):
        d = self.d
        ks = sorted(d)
        if name == 'set':
            d[i + 0.25] = i
        elif name == 'setdefault':
            return d.setdefault(-1.0 - i, i)
        elif name == 'popitem':
            return (ks[-1], d.pop(ks[-1])) if ks else None
        elif name == 'del':
            if ks:
                del d[ks[0]]
        elif name == 'peek':
            return (ks[len(ks) // 2], d[ks[len(ks) // 2]]) if ks else None
        elif name == 'clear':
            d.clear()
        elif name == 'update':
            d.update({50.0 + i + j: i for j in range(5)})

    def full(self):
        return sorted(self.d.items()) if self.what == 'dict' else list(self.l)


def build(what, n, shared):
    if what == 'list':
        c = SortedList(shared[:n] if n else None)
    elif what == 'key':
        c = SortedKeyList(shared[:n] if n else None, key=negreal)
    elif what == 'set':
        c = SortedSet(shared[:n] if n else None)
    else:
        c = SortedDict.fromkeys(shared[:n], 'v') if n else SortedDict()
    c._reset(4)
    return c


def derive(c, what, how):
    if how == 'copy':
        r = c.copy()
    elif how == 'plus':
        r = (c + []) if what in ('list', 'key') else (c | type(c)())
    r._reset(4)
    return r


RETURN_OK = {'update': True, 'ior': True, 'isub': True}


def lockstep(case, st):
    """Every interleaving of calls on two live instances up to a depth."""
    (wa, na, wb, nb, how), first, depth = case
    A, B = opsfor(wa), opsfor(wb)
    alpha = [(0, op) for op in A] + [(1, op) for op in B]
    shared = [float(j) for j in range(20)]
    for rest in itertools.product(alpha, repeat=depth - 1):
        seq = (alpha[first],) + rest
        if not any(s[0] == 0 for s in seq) or not any(s[0] == 1 for s in seq):
            continue
        cs = [build(wa, na, shared)]
        cs.append(build(wb, nb, shared) if how == 'fresh' else derive(cs[0], wa, how))
        ms = [Plain(wa, shared[:na]),
              Plain(wb, shared[:nb]) if how == 'fresh' else Plain(wa, shared[:na])]
        try:
            for i, (w, (nm, fn)) in enumerate(seq):
                a = fn(cs[w], i)
                e = ms[w].do(nm, i)
                if a != e and nm not in RETURN_OK:
                    raise Violation('call %d: %s on instance %d' % (i, nm, w), e, a)
                st.add('transitions')
            for w in (0, 1):
                c, m = cs[w], ms[w].full()
                got = list(c.items()) if ms[w].what == 'dict' else list(c)
                if got != m or len(c) != len(m):
                    raise Violation('contents of instance %d' % w, m, got)
                if ms[w].what == 'dict':
                    got = [c.peekitem(i) for i in range(len(m))]
                else:
                    got = [c[i] for i in range(len(m))]
                if got != m:
                    raise Violation('positions of instance %d' % w, m, got)
        except Violation as v:
            v.info['trace'] = ['two instances %r' % (case[0],)] + [
                'instance %d: %s' % (w, nm) for w, (nm, _) in seq]
            raise
        st.add('states')
    if shared != [float(j) for j in range(20)]:
        raise Violation('the shared argument list was changed', None, shared)


def constructed(case, st):
    """Containers built from (or given) every kind and size of argument: argument and
    container, and two containers of the same argument, are independent."""
    what, form, n, how = case
    vals = [float(i) for i in range(0, 2 * n, 2)]
    isd = what.startswith('dict')
    key = ASC if what.endswith('key') else None

    class Sub(SortedSet):
        pass

    def argument():
        return {'list': lambda: list(vals), 'set': lambda: set(vals),
                'dict': lambda: dict.fromkeys(vals, 0),
                'keysview': lambda: dict.fromkeys(vals, 0).keys(),
                'pairs': lambda: [[v, 0] for v in vals],
                'sl': lambda: SortedList(vals), 'skl': lambda: SortedKeyList(vals, key=ASC),
                'ss': lambda: SortedSet(vals), 'ssk': lambda: SortedSet(vals, key=ASC),
                'sub': lambda: Sub(vals),
                'sd': lambda: SortedDict.fromkeys(vals, 0),
                'sdk': lambda: SortedDict(ASC, dict.fromkeys(vals, 0)),
                'sdkeys': lambda: SortedDict.fromkeys(vals, 0).keys()}[form]()

    def new(*a):
        cls = {'list': SortedList, 'set': SortedSet, 'dict': SortedDict}[what[:4].rstrip('-')]
        if isd:
            return SortedDict(key, *a) if key else SortedDict(*a)
        return cls(*a, key=key)

    def build(arg):
        if how == 'new':
            return new(arg)
        c = new()
        if how == 'new empty, update':
            c.update(arg)
        elif how == 'ior':
            c |= arg
        elif how == 'iadd':
            c += arg
        elif how == 'reused':
            c.update(new(arg))
            c.clear()
            c.update(arg)
        elif how == 'xor':
            c ^= arg
        elif how == 'op':
            c = new() + arg if what.startswith('list') else new() | arg
        elif how == 'rop':
            c = (arg + new()) if what.startswith('list') else (arg | new())
        elif how == 'union':
            c = c.union(arg)
        elif how == 'symm':
            c = c.symmetric_difference(arg)
        return c

    def look(c):
        if hasattr(c, 'items'):
            return sorted(c.items())
        return sorted(map(list, c)) if form == 'pairs' and isinstance(c, list) else sorted(c)

    want = [(v, 0) for v in vals] if isd else list(vals)

    def whole(c, text):
        if look(c) != want or list(c) != vals or len(c) != n or any(
                (c.keys() if isd else c)[i] != vals[i] for i in range(n)):
            raise Violation('%r: %s' % (case, text), want, look(c))
        for v in vals + [-9.0, 99.0, 1.0]:
            if (v in c) != (v in vals):
                raise Violation('%r: %s: %r in c' % (case, text, v))
        c._check()
        st.add('transitions')

    def mutate(c, i):
        """Mutator i of a container or plain collection; None when there is none."""
        d = hasattr(c, 'items')
        v = vals[0] if vals else 1.0
        if isinstance(c, list):
            ops = [lambda: c.append(-9.0), lambda: c.clear(), lambda: c and c.pop(),
                   lambda: c.extend([99.0] * 30), lambda: wreck(c)]
            if form == 'pairs':
                ops.append(lambda: [p.reverse() for p in c])
                ops.append(lambda: [p.__setitem__(1, 'other') for p in c])
        elif d:
            ops = [lambda: c.__setitem__(-9.0, 1), lambda: c.clear(),
                   lambda: c and c.popitem(), lambda: c.__setitem__(v, 'other'),
                   lambda: c.update({99.0 + j: 1 for j in range(30)}),
                   lambda: c.pop(v, 0), lambda: c.setdefault(-9.0, 4)]
        elif hasattr(c, 'add'):
            ops = [lambda: c.add(-9.0), lambda: c.clear(), lambda: c and c.pop(),
                   lambda: c.update([99.0 + j for j in range(30)]),
                   lambda: c.discard(v)]
            if not isinstance(c, SortedList):
                ops += [lambda: c.intersection_update([v]),
                        lambda: c.difference_update([v]),
                        lambda: c.symmetric_difference_update([v, -9.0])]
        else:
            return None
        if i >= len(ops):
            return None
        ops[i]()
        return True

    i = 0
    while True:
        arg = argument()
        try:
            a, b = build(arg), build(arg)
        except TypeError:
            if how in ('rop', 'op', 'ior', 'xor', 'iadd'):
                return
            raise
        if type(a) is not type(new()):
            return
        if a is arg or a is b:
            raise Violation('%r: the argument itself comes back' % (case,))
        was = look(arg)
        whole(a, 'built')
        if mutate(a, i) is None:
            break
        if look(arg) != was:
            raise Violation('%r: mutator %d of the container changed the argument' % (
                case, i), was, look(arg))
        whole(b, 'mutator %d of another container of the same argument' % i)
        i += 1
    i = 0
    while True:
        arg = argument()
        a = build(arg)
        if mutate(arg, i) is None:
            break
        whole(a, 'mutator %d of the argument' % i)
        i += 1
    st.add('states')


class ListSub(list):
    pass


class DictSub(dict):
    pass


def arguments(case, st):
    """Every call that takes a collection leaves it exactly as it was: the same objects
    in the same order (given out of order, around and beyond the load factor)."""
    what, form, n, load = case
    vals = [float(i * 7919 % 10007) for i in range(n)]
    isd = what.startswith('dict')
    key = ASC if what.endswith('key') else None
    pairs = [(v, [v]) for v in vals]
    src = pairs if isd and form not in ('keys', 'set') else vals
    arg = {'list': list, 'listsub': ListSub, 'tuple': tuple, 'deque': deque, 'set': set,
           'dict': lambda s: dict(pairs), 'dictsub': lambda s: DictSub(pairs),
           'lists': lambda s: [list(p) for p in pairs],
           'keys': lambda s: dict(pairs).keys()}[form](src)
    before = list(arg.items()) if isinstance(arg, dict) else list(arg)
    inner = [list(p) for p in before] if form == 'lists' else None

    def look(text):
        now = list(arg.items()) if isinstance(arg, dict) else list(arg)
        if len(now) != len(before) or not all(
                map(is_, now, before) if not isinstance(arg, dict) else
                (p[0] is q[0] and p[1] is q[1] for p, q in zip(now, before))):
            raise Violation('%r: the argument of %s was changed' % (case, text),
                            before[:20], now[:20])
        if inner is not None and [list(p) for p in now] != inner:
            raise Violation('%r: a pair given to %s was changed' % (case, text))
        st.add('transitions')

    def make(seed):
        if isd:
            c = SortedDict(key)
        elif what.startswith('set'):
            c = SortedSet(key=key)
        else:
            c = SortedList(key=key)
        if load:
            c._reset(load)
        if seed:
            c.update([(v, 0) for v in seed] if isd else seed)
        return c
    new = {'list': SortedList, 'set': SortedSet, 'dict': SortedDict}[what[:4].rstrip('-')]
    jobs = [('constructor', lambda c: (new(key, arg) if isd else new(arg, key=key))),
            ('update', lambda c: c.update(arg)),
            ('fromkeys', lambda c: SortedDict.fromkeys(arg))]
    import operator
    if what.startswith('list'):
        jobs += [('+=', lambda c: operator.iadd(c, arg)), ('+', lambda c: c + arg),
                 ('reflected +', lambda c: arg + c)]
        jobs += [(o, lambda c, o=o: getattr(operator, o)(c, arg))
                 for o in ('eq', 'ne', 'lt', 'gt', 'le', 'ge')]
    elif isd:
        jobs += [('|=', lambda c: operator.ior(c, arg)), ('|', lambda c: c | arg),
                 ('reflected |', lambda c: arg | c), ('==', lambda c: c == arg)]
    else:
        jobs += [(o, lambda c, o=o: getattr(c, o)(arg)) for o in (
            'union', 'intersection', 'difference', 'symmetric_difference', 'isdisjoint',
            'issubset', 'issuperset', 'intersection_update', 'difference_update',
            'symmetric_difference_update')]
        jobs += [(o, lambda c, o=o: getattr(operator, o)(c, arg)) for o in (
            'or_', 'and_', 'sub', 'xor', 'ior', 'iand', 'isub', 'ixor', 'eq', 'le', 'gt')]
        jobs += [('reflected ' + o, lambda c, o=o: getattr(operator, o)(arg, c)) for o in (
            'or_', 'and_', 'sub', 'xor')]
        jobs += [('update, two', lambda c: c.update(arg, arg)),
                 ('union, two', lambda c: c.union([0.5], arg))]
    for seed in ((), (0.5,), vals[:n // 2], [v + 0.5 for v in vals] * 5):
        for text, fn in jobs:
            c = make(seed)
            try:
                fn(c)
            except TypeError:
                pass
            look(text)
    st.add('states')


def larger(case, st):
    """Slices, copies and arguments at the default load factor and many segments."""
    what, n, load = case
    vals = [float(i) for i in range(n)]
    src = list(vals)
    if what == 'dict':
        c = SortedDict.fromkeys(src, 0)
    elif what == 'set':
        c = SortedSet(src)
    else:
        c = SortedList(src) if what == 'list' else SortedKeyList(src, key=ASC)
    if load:
        c._reset(load)
    src.clear()
    v = c.keys() if what == 'dict' else c

    def chk(text):
        if list(v) != vals or len(c) != n or any(
                v[i] != vals[i] for i in range(0, n, max(1, n // 50))):
            raise Violation('%s %r' % (text, case), vals, list(v))
        c._check()
        st.add('transitions')
    chk('clearing the argument')
    L = load or 1000
    pts = [None] + sorted({q + d for q in range(0, n + 1, L) for d in (-1, 0, 1)
                           if 0 <= q + d <= n})[:24] + [n]
    for a in pts:
        for b in pts:
            r = v[a:b]
            if r != vals[a:b]:
                raise Violation('slice %r:%r %r' % (a, b, case), vals[a:b], r)
            r.clear()
            r.append(SENT)
            st.add('transitions')
    chk('mutating slices')
    for r in (c.copy(), copy.copy(c), copy.deepcopy(c),
              pickle.loads(pickle.dumps(c)) if what != 'key' else c.copy()):
        if what in ('list', 'key'):
            r.add(0.5)
            r.pop()
            r.update(vals)
            del r[::2]
        elif what == 'set':
            r.add(0.5)
            r.discard(1.0)
            r.update([0.1, 0.2])
            r -= vals[:5]
        else:
            r[0.5] = 1
            r[0.0] = 5
            r.popitem()
        r.clear()
        chk('mutating a copy')
    if what == 'dict' and any(c[k] != 0 for k in vals[:50]):
        raise Violation('values changed %r' % (case,))
    y = c.copy()
    c.clear()
    if list(y) != vals:
        raise Violation('clearing the original changed the copy %r' % (case,), vals,
                        list(y))


def run(tier):
    cov = Cov()
    deep = tier == 'thorough'
    cov.bfs('list', LSys('list', 4, 16 if deep else 12))
    cov.bfs('list-ties', LSys('list', 4, 9 if deep else 7, distinct=False, kmax=3))
    cov.bfs('key', LSys('key', 4, 12 if deep else 9))
    cov.bfs('set', SSys('num', 4, 14 if deep else 10))
    cov.bfs('set-key', SSys('key', 4, 7 if deep else 5, emax=2, kmax=2))
    cov.bfs('dict', DSys('num', 4, 14 if deep else 10))
    cov.bfs('dict-key', DSys('key', 4, 6 if deep else 4, emax=2, kmax=2))
    D = 5 if deep else 4
    pairs = [('list', 9, 'list', 9, 'fresh'), ('list', 0, 'list', 0, 'fresh'),
             ('key', 9, 'list', 0, 'fresh'), ('key', 9, 'key', 17, 'fresh'),
             ('set', 9, 'set', 9, 'fresh'), ('set', 0, 'set', 0, 'fresh'),
             ('dict', 9, 'dict', 9, 'fresh'), ('dict', 0, 'dict', 0, 'fresh'),
             ('list', 9, 'set', 9, 'fresh'), ('dict', 9, 'set', 0, 'fresh')]
    pairs += [(w, n, w, n, how) for w in ('list', 'key', 'set', 'dict')
              for n in (0, 9) for how in ('copy', 'plus')]
    cov.cases('two-instances', 'every interleaving of %d calls on two live instances '
              '(14 calls), %d pairs' % (D, len(pairs)),
              [(p, f, D) for p in pairs for f in range(14)], lockstep, timeout=300)
    forms = {'list': ('list', 'set', 'dict', 'keysview', 'sl', 'skl', 'ss', 'sd', 'sdkeys'),
             'set': ('list', 'set', 'dict', 'keysview', 'sl', 'ss', 'ssk', 'sub', 'sd',
                     'sdkeys'),
             'dict': ('dict', 'pairs', 'sd', 'sdk')}
    hows = {'list': ('new', 'new empty, update', 'iadd', 'op', 'rop', 'reused'),
            'set': ('new', 'new empty, update', 'ior', 'xor', 'op', 'rop', 'union', 'symm',
                    'reused'),
            'dict': ('new', 'new empty, update', 'ior', 'op', 'rop', 'reused')}
    cov.cases('constructed', 'every argument form x size x way in; every mutator of '
              'argument, container, and a second container of the same argument',
              [(w + k, f, n, h) for w in ('list', 'set', 'dict') for k in ('', '-key')
               for f in forms[w] for n in (0, 1, 2, 5, 30) for h in hows[w]], constructed)
    cov.cases('arguments', 'every call that takes a collection leaves it as it was',
              [(w + k, f, n, load) for w, fs in (
                  ('list', ('list', 'listsub', 'tuple', 'deque', 'set', 'dict', 'keys')),
                  ('set', ('list', 'listsub', 'tuple', 'deque', 'set', 'dict', 'keys')),
                  ('dict', ('list', 'listsub', 'lists', 'deque', 'dict', 'dictsub')))
               for k in ('', '-key') for f in fs
               for n, load in ((3, 4), (9, 4), (40, 4), (30, None), (1003, None),
                               (2500, None))], arguments)
    cov.cases('larger', 'more segments and the default load factor',
              [(w, n, load) for w in ('list', 'key', 'set', 'dict')
               for n, load in ((3, None), (40, 4), (150, 5), (1999, None),
                               (2100, None), (4300, None))], larger)
    cov.cases('apart-lists', 'every form of operand x sizes x overlap x load: lists stay apart',
              matrix_cases(deep, ('none', 'neg'), (4, None)),
              partial(matrix_list_case, part='apart'), timeout=300)
    cov.cases('apart-lists-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('none', 'neg')],
              partial(matrix_list_case, part='apart'), timeout=300)
    cov.cases('apart-dicts', 'every form of operand x sizes x overlap x load: dicts stay apart',
              matrix_cases(deep, ('none', 'neg'), (4, None)),
              partial(matrix_dict_case, part='apart'), timeout=300)
    cov.cases('apart-dicts-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('none', 'neg')],
              partial(matrix_dict_case, part='apart'), timeout=300)
    cov.cases('apart-sets', 'every form of operand x sizes x overlap x load: sets stay apart',
              matrix_cases(deep, ('none', 'neg'), (4,)),
              partial(matrix_set_case, part='apart'), timeout=300)
    cov.cases('apart-sets-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('none', 'neg')],
              partial(matrix_set_case, part='apart'), timeout=300)
    return cov.result(['iterators obtained from a container are only used before its '
                       'next mutation (documented)'])
