"""Generic snapshot of live containers: deep clone and full-state fingerprint.

Nothing here names an attribute of the code under test: an object of the package
is copied by walking whatever instance state it has (``__dict__``/``__slots__``,
list, dict and set content, cached bound methods).  A clone is therefore an exact
copy of the *internal* state (split points, lazily built index, cached method
references), which ``copy.deepcopy`` is not (it goes through ``__reduce__``).
"""
import functools
import hashlib
import marshal
import types
from collections import deque

NoneType = type(None)
ATOMS = {
    int, float, complex, str, bytes, bool, NoneType, type, types.FunctionType,
    types.ModuleType, range, slice, type(NotImplemented), type(Ellipsis),
    frozenset, property,
}


def register_atom(cls):
    ATOMS.add(cls)
    return cls


def _slots(t):
    out = []
    for c in t.__mro__:
        s = c.__dict__.get('__slots__', ())
        if isinstance(s, str):
            s = (s,)
        for n in s:
            if n in ('__dict__', '__weakref__'):
                continue
            if n.startswith('__') and not n.endswith('__'):
                n = '_' + c.__name__.lstrip('_') + n
            out.append(n)
    return out


_slot_cache = {}


def slots(t):
    r = _slot_cache.get(t)
    if r is None:
        r = _slot_cache[t] = _slots(t)
    return r


def _copylist(x, memo):
    if set(map(type, x)) <= ATOMS:
        new = x[:] if type(x) is list else list(x)
        memo[id(x)] = new
        return new
    new = []
    memo[id(x)] = new
    for e in x:
        new.append(_c(e, memo))
    return new


def _c(x, memo):
    t = type(x)
    if t in ATOMS:
        return x
    i = id(x)
    r = memo.get(i)
    if r is not None:
        return r
    if t is list:
        return _copylist(x, memo)
    if t is types.MethodType:
        r = memo[i] = types.MethodType(x.__func__, _c(x.__self__, memo))
        return r
    if t is types.BuiltinMethodType:
        s = x.__self__
        if s is None or type(s) is types.ModuleType or isinstance(s, type):
            return x
        r = memo[i] = getattr(_c(s, memo), x.__name__)
        return r
    if t is types.MethodWrapperType:
        r = memo[i] = getattr(_c(x.__self__, memo), x.__name__)
        return r
    if t is tuple:
        if set(map(type, x)) <= ATOMS:
            return x
        r = tuple(_c(e, memo) for e in x)
        memo[i] = r
        return r
    if t is set:
        r = memo[i] = set(x)
        return r
    if t is dict:
        r = memo[i] = {}
        for k, v in x.items():
            r[k] = _c(v, memo)
        return r
    if t is deque:
        r = memo[i] = deque((_c(e, memo) for e in x), x.maxlen)
        return r
    if t is functools.partial:
        r = functools.partial(
            _c(x.func, memo), *[_c(a, memo) for a in x.args],
            **{k: _c(v, memo) for k, v in x.keywords.items()})
        memo[i] = r
        return r
    if not _ours(t):
        return x
    if issubclass(t, dict):
        new = dict.__new__(t)
    elif issubclass(t, list):
        new = list.__new__(t)
    elif issubclass(t, set):
        new = set.__new__(t)
    else:
        new = object.__new__(t)
    memo[i] = new
    if issubclass(t, dict):
        for k, v in dict.items(x):
            dict.__setitem__(new, k, _c(v, memo))
    elif issubclass(t, list):
        list.extend(new, [_c(v, memo) for v in list.__iter__(x)])
    elif issubclass(t, set):
        set.update(new, set.__iter__(x))
    d = getattr(x, '__dict__', None)
    if d:
        nd = new.__dict__
        for k, v in d.items():
            nd[k] = v if type(v) in ATOMS else _c(v, memo)
    for n in slots(t):
        try:
            v = getattr(x, n)
        except AttributeError:
            continue
        object.__setattr__(new, n, _c(v, memo))
    return new


_ours_cache = {}


def _ours(t):
    r = _ours_cache.get(t)
    if r is None:
        r = _ours_cache[t] = any(
            c.__module__.split('.')[0] == 'sortedcontainers' for c in t.__mro__)
    return r


def clone(x):
    return _c(x, {})


def _f(x, vm, memo):
    """Dump to a marshal-able canonical tree.  ``vm`` maps element values to
    canonical codes (identity when empty); vm['F'], when present, is the separate
    table of floats (cached keys of complex elements)."""
    t = type(x)
    if t is int or t is bool or x is None:
        return x
    if t is float or t is complex:
        if vm and t is float and 'F' in vm:
            vm = vm['F']
        return ('v', vm.get(x, x) if vm else x)
    if t is str or t is bytes:
        return x
    if t is list or t is tuple:
        ts = set(map(type, x))
        if ts == {int}:
            return tuple(x)
        if ts == {float} or ts == {complex}:
            if vm and ts == {float} and 'F' in vm:
                vm = vm['F']
            return ('V', tuple([vm.get(e, e) for e in x]) if vm else tuple(x))
        if not ts:
            return ()
        return ('l',) + tuple([_f(e, vm, memo) for e in x])
    i = id(x)
    if i in memo:
        return ('ref', memo[i])
    if t in (types.MethodType, types.BuiltinMethodType, types.MethodWrapperType):
        s = getattr(x, '__self__', None)
        n = getattr(x, '__name__', '')
        if _ours(type(s)) or type(s) in (set, dict, list):
            return ('m', n, _f(s, vm, memo))
        return ('b', n)
    memo[i] = len(memo)
    if t is set:
        return ('s', tuple(sorted([_k(_f(e, vm, memo)) for e in x])))
    if t is dict:
        return ('d', tuple(sorted(
            [(_k(_f(k, vm, memo)), _f(v, vm, memo)) for k, v in x.items()],
            key=lambda p: p[0])))
    if t is functools.partial:
        return ('p', _f(x.func, vm, memo), _f(list(x.args), vm, memo))
    if _ours(t):
        out = ['o', t.__name__]
        if issubclass(t, dict):
            out.append(tuple(sorted(
                [(_k(_f(k, vm, memo)), '') for k in dict.keys(x)])))
        elif issubclass(t, (list, set)):
            out.append(_f(list(t.__mro__[-2].__iter__(x)), vm, memo))
        d = getattr(x, '__dict__', None) or {}
        for k in sorted(d):
            out.append(k)
            out.append(_f(d[k], vm, memo))
        for n in slots(t):
            try:
                v = getattr(x, n)
            except AttributeError:
                continue
            out.append(n)
            out.append(_f(v, vm, memo))
        return tuple(out)
    if callable(x):
        return ('c', getattr(x, '__name__', t.__name__))
    return ('r', repr(x))


def _k(x):
    return marshal.dumps(x, 2)


def digest(x, vm=None):
    """128-bit digest of the full internal state of ``x`` (dict values excluded:
    the code never inspects them, see DESIGN.md)."""
    return hashlib.blake2b(
        marshal.dumps(_f(x, vm or {}, {}), 2), digest_size=16).digest()
