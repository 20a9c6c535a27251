"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
SL = 'src/sortedcontainers/sortedlist.py'
SD = 'src/sortedcontainers/sorteddict.py'
SS = 'src/sortedcontainers/sortedset.py'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe), 'hook_needed': None}})


LISTSTATE = [('_lists', 'sorted sublists holding the values', SL),
             ('_maxes', 'largest value (key) of every sublist', SL),
             ('_index', 'lazily built tree of pair-wise sums of sublist lengths', SL)]

p('C01', 'SortedList is a sorted multiset under every mutation history',
  'After any sequence of add, update, remove, discard, pop, del (index or slice), clear, += and *= on a SortedList, its length, iteration, reverse iteration, membership and every index show exactly the values put in and not taken out, in ascending order. Every call returns what the same call on a plain sorted list would return, or raises ValueError/IndexError exactly when the value is missing or the index out of range.',
  ['histories', 'inputs'], 'every history of mutating calls, with or without intervening reads, and every argument',
  'The stress tests draw a few thousand random calls from one seed at a few load factors; split, merge, index-maintenance and bulk-strategy branches depend on particular combinations of sublist lengths, index presence and position that random draws seldom hit.',
  [SL], [('add/_expand', SL), ('_delete', SL), ('update', SL), ('__delitem__', SL), ('pop', SL)], LISTSTATE,
  ['list(sl)', 'len(sl)', 'sl[i]', 'v in sl', 'return values'])

p('C02', 'SortedKeyList orders by its key function under every mutation history',
  'After any sequence of mutating calls on a SortedKeyList (or SortedList created with a key), it holds exactly the values put in and not taken out, ordered by key(value), and only keys are ever compared for order. Removal, membership, counting and lookup of a value find a value equal to the argument even when many unequal values share its key, and never affect an unequal one.',
  ['histories', 'inputs'], 'every history of mutating calls and every pattern of key collisions',
  'Tests use modulo and negate keys on integers; runs of equal keys crossing sublist boundaries with unequal values, after splits and merges, are only hit by luck, and the values used are themselves orderable so comparing values instead of keys goes unseen.',
  [SL], [('SortedKeyList.add/_expand/_delete', SL), ('SortedKeyList.__contains__/discard/remove/count/index', SL)],
  LISTSTATE + [('_keys', 'cached keys parallel to the sublists', SL)], ['list(skl)', 'skl.remove', 'skl.count', 'v in skl'])

p('C03', 'Indexing and slicing read like a list after any history',
  'For every integer index and every slice (any start, stop and step, negative, out of range or omitted) sl[index], islice and reversed() return exactly what a plain list of the same values would, or raise IndexError exactly when it would. This holds whatever mutations and lookups came before and however many internal segments the values occupy.',
  ['histories', 'inputs'], 'every reachable internal layout, every index and slice',
  'Tests check a few slices on lists built one way; the positional index is lazily built and incrementally maintained, so a wrong entry shows only for certain layouts, index states and positions.',
  [SL], [('_pos', SL), ('_build_index', SL), ('__getitem__', SL), ('islice/_islice', SL)], LISTSTATE, ['sl[i]', 'sl[a:b:c]', 'sl.islice'])

p('C04', 'Deleting by index or slice removes exactly the selected positions',
  'del sl[index], del sl[a:b:c] and pop(index) remove exactly the elements a plain list would remove for the same index or slice (any sign, range and step), keep all others in order, and raise IndexError, changing nothing, when a single index is out of range. The same holds for SortedKeyList and SortedSet, and for SortedDict views where the items are removed from the dict.',
  ['histories', 'inputs'], 'every reachable layout, every index and slice',
  'Deletion switches between clearing, rebuilding and one-by-one strategies depending on slice size relative to length; tests sample few combinations of size, step and layout.',
  [SL, SD, SS], [('__delitem__', SL), ('_delete', SL), ('pop', SL), ('_view_delitem', SD), ('SortedSet.__delitem__', SS)], LISTSTATE, ['del sl[...]', 'sl.pop(i)'])

p('C05', 'Searching: bisect, index, count and membership agree with a linear scan',
  'For every value, present or absent, bisect_left/bisect_right/bisect (and the bisect_key variants), count, index with any start and stop, and membership give the answer a linear scan of the listed values gives, index raising ValueError exactly when the value is not in the requested range. This holds in every state the container can reach.',
  ['histories', 'inputs'], 'every reachable layout, every probe value and every start/stop pair',
  'Runs of equal values across segment boundaries, values beyond the maximum, and start/stop cutting a run of duplicates are combinations unit tests sample a handful of.',
  [SL], [('bisect_left/bisect_right/_loc', SL), ('count', SL), ('index', SL), ('SortedKeyList variants', SL)], LISTSTATE, ['sl.bisect_left', 'sl.index', 'sl.count'])

p('C06', 'irange and islice yield exactly the values in range, in order',
  'For every minimum and maximum (present, absent, equal, crossed or omitted), inclusive pair and direction, irange and irange_key yield exactly the stored values within the bounds, ascending or (reverse) descending, each once; islice does the same for index bounds. This holds for lists, dicts and sets in every reachable state.',
  ['histories', 'inputs'], 'every reachable layout, every pair of bounds, inclusiveness and direction',
  'The bound computations and the one, two and many segment iteration cases multiply; unit tests try a few dozen combinations on one layout.',
  [SL], [('irange', SL), ('irange_key', SL), ('_islice', SL)], LISTSTATE, ['sl.irange', 'sl.islice', 'sd.irange', 'ss.irange'])

p('C07', 'Equal elements keep insertion order; removal takes the first of them',
  'Elements that compare equal (or have equal keys) stay in the order in which they were added, whichever of add, update, +=, +, * or the constructor added them, and index-based calls address them in that order. remove and discard delete the earliest-positioned element equal to the argument, and the objects returned are the very objects stored.',
  ['histories', 'inputs'], 'every history over values that compare equal but are distinguishable',
  'Tests use integers, for which equal elements cannot be told apart, so the order of ties is never observed after splits, merges or bulk updates.',
  [SL], [('add uses right bisection', SL), ('update uses a stable sort of old then new', SL)], LISTSTATE, ['list(sl) by identity', 'sl.pop(i)', 'sl[i]'])

p('C08', 'The load factor never changes results',
  'The same sequence of calls gives the same results and contents whatever the load factor: default, set by a subclass through DEFAULT_LOAD_FACTOR, or changed at any moment with _reset. Changing it never loses, duplicates or reorders values.',
  ['configurations', 'histories'], 'every pair of load factors (at least 4) and every history, with resets at any point',
  'Tests run each scenario at one or two load factors and never compare the outcomes of one history across load factors, nor reset in the middle of histories systematically.',
  [SL, SD, SS], [('_reset', SL), ('_expand/_delete thresholds', SL), ('update chunking', SL)], LISTSTATE, ['all results'])

p('C09', 'The consistency self-check passes and segments stay balanced, always',
  'After any history of public calls on a list, dict or set the documented self-check (_check) succeeds, no internal segment is ever empty or longer than twice the load factor, none but the last is shorter than half of it, and the cached maxima, keys and positional index agree with the contents. The dict (set) part and the sorted-list part of a SortedDict (SortedSet) always hold the same keys.',
  ['histories'], 'every history of public calls, every load factor of at least 4',
  'Balance and index invariants are checked by tests on random states only; a layout violating them may still answer most queries correctly.',
  [SL, SD, SS], [('_expand', SL), ('_delete', SL), ('_build_index', SL), ('_check', SL)], LISTSTATE, ['_check()', 'documented representation'])

p('C10', 'Element lookups and insertions take logarithmically many comparisons',
  'add, remove, discard, membership, bisect_left/right, index and count on a list of n values (few values equal to the probe when there is a key function, any number without) make at most on the order of log n comparisons of elements, for every n, position and load factor; lookups and removals by position make none that grow with n. This remains true after any history of insertions and deletions.',
  ['inputs', 'histories'], 'every size, every position, layouts reached by growth and by shrinking',
  'No test counts comparisons; falling back to a linear scan gives the same answers and passes every functional test.',
  [SL], [('two-level bisection', SL), ('segment splitting and merging', SL)], LISTSTATE, ['number of comparisons per call'])

p('C11', 'SortedDict is a dict whose keys iterate in sorted order',
  'After any sequence of item assignment, deletion, update, |=, setdefault, pop, popitem, peekitem, clear and view deletions, a SortedDict holds exactly the items a plain dict would, and iterates keys, items, values and reversed keys in key order. Return values and KeyError/IndexError outcomes match the documentation for every argument, including falsy or None keys, values and defaults, __missing__ subclasses, and later pairs and keyword arguments overriding earlier ones.',
  ['histories', 'inputs'], 'every history of mapping calls and every argument form',
  'The dict and the key list are updated separately in every method and bulk update changes strategy with relative size; tests cover single calls and random mixes of a few argument forms.',
  [SD], [('__setitem__/__delitem__/pop/popitem/setdefault/update', SD)],
  [('dict part', 'items', SD), ('_list', 'sorted list of the keys', SD)], ['list(sd)', 'dict(sd)', 'return values'])

p('C12', 'SortedDict views are live sorted sequences and sets',
  'keys(), items() and values() views always reflect the current dict: iteration, reversal, length, indexing, slicing, membership, index and count agree with the sorted list of current items, before and after any mutation made after the view was created. Set operations and comparisons on keys and items views (of dicts without key function) equal those of plain sets, and results come as sorted sets.',
  ['histories', 'inputs'], 'every history interleaving view reads with dict mutations, every index, slice and operand',
  'Tests create a view and read it at once; views kept across bulk updates, clears or view deletions are hardly exercised.',
  [SD], [('SortedKeysView/SortedItemsView/SortedValuesView', SD), ('_view_delitem', SD)], [('_mapping', 'the viewed dict', SD)], ['views'])

p('C13', 'SortedSet is a set whose values iterate in sorted order',
  'After any sequence of add, discard, remove, pop, del, clear, update, intersection_update, difference_update, symmetric_difference_update and |=, &=, -=, ^= with any number of iterables, a SortedSet contains exactly what a plain set would, each value once, in sorted order. Set-side answers (membership, len, isdisjoint, issubset, issuperset) and list-side answers (indexing, iteration, bisect, index, irange) always agree, also through bound methods obtained earlier.',
  ['histories', 'inputs'], 'every history of set calls, every size ratio of set and argument',
  'Set and list are updated separately with strategies depending on relative sizes; tests sample sizes and rarely check both sides after each step.',
  [SS], [('add/discard/remove/pop', SS), ('update/difference_update/...', SS), ('exposed bound methods', SS)],
  [('_set', 'membership', SS), ('_list', 'order', SS)], ['list(ss)', 'v in ss', 'ss.issubset'])

p('C14', 'Set algebra and set comparisons equal those of plain sets',
  'union, intersection, difference, symmetric_difference with any number of iterables and the operators |, &, -, ^ with the SortedSet on either side give exactly the elements plain sets give, as a new SortedSet in sorted order, leaving the operands unchanged. ==, !=, <, <=, >, >= against SortedSets, sets, frozensets and other set types, on either side, are the subset relations, and comparing with a non-set is unequal or a TypeError.',
  ['inputs', 'configurations'], 'every pair of operands over a small universe, every operand type, side and operator',
  'Tests check a few operand pairs per method, mostly SortedSet on the left and one argument type.',
  [SS], [('difference/intersection/union/symmetric_difference', SS), ('__make_cmp', SS)], [('_set', 'membership', SS)], ['results', 'operands'])

p('C15', 'List +, *, += , *= and comparisons behave as on sorted sequences',
  'sl + other, other + sl, sl * n and n * sl return new sorted lists (same class, same key) of exactly the combined or repeated values, leaving operands unchanged; += and *= do it in place on the same object. ==, !=, <, <=, >, >= with any sequence on either side equal the lexicographic comparison of the listed values, and return NotImplemented-based results for non-sequences.',
  ['inputs', 'configurations'], 'every pair of operand contents up to a size, every operand type and side',
  'Tests compare a handful of literal pairs; prefix, length and first-difference cases and reflected operators are sampled.',
  [SL], [('__add__/__mul__/__iadd__/__imul__', SL), ('__make_cmp', SL)], LISTSTATE, ['results', 'operands'])

p('C16', 'A refused operation raises the documented error and changes nothing',
  'Removing or looking up an absent value or key, popping from an empty container, using an out-of-range index, and calling an unsupported list method (append, extend, insert, reverse, item assignment) raise the documented exception class. The container is afterwards indistinguishable from before: same contents, same answers, same later behaviour.',
  ['histories', 'inputs', 'fault_sequences'], 'every reachable state and every refused call',
  'Tests assert the exception but not that the state (including both halves of dict and set) is untouched, and only on one or two states.',
  [SL, SD, SS], [('error paths of remove/index/pop/__getitem__/__delitem__', SL), ('pop/popitem/__delitem__', SD), ('remove/pop', SS)], LISTSTATE, ['exceptions', 'contents after'])

p('C17', 'Bad input data never corrupts or partly changes a container',
  'When add, assignment, setdefault, update or any other insertion or lookup fails because a value cannot be ordered against the contents, cannot be hashed, makes the key function raise, is a malformed pair, or because the input iterable raises part-way, the error propagates and the container keeps exactly its previous contents. It stays fully usable and self-consistent afterwards.',
  ['fault_sequences', 'inputs'], 'every operation, every kind of bad datum and every position at which it occurs in the input',
  'No test injects a failing comparison, hash, key function or iterator; the two halves of dict and set are updated one after the other, so an exception in between desynchronises them.',
  [SL, SD, SS], [('order of updates in add/__setitem__/setdefault/update', SD), ('add/update', SS), ('update', SL)], LISTSTATE, ['contents after the exception', '_check()'])

p('C18', 'Copies, pickles and reprs reproduce the container',
  'copy(), copy.copy, copy.deepcopy, pickling (every protocol) and evaluating repr() (where values and key function have an evaluable one) of any reachable list, dict, set or subclass instance yield a container of the same class, with equal contents in the same sorted order (set values with equal keys aside) and the same key function, that is itself fully functional. The copy and the original never affect each other afterwards.',
  ['histories', 'inputs'], 'every reachable state, every later mutation of either side',
  'Tests copy small fresh containers once and compare; copies of containers with split segments or a built index, and mutations of both sides afterwards, are not covered.',
  [SL, SD, SS], [('copy/__copy__', SL), ('__reduce__', SL), ('__reduce__/copy', SD), ('_fromset/__reduce__', SS), ('__repr__', SL)], LISTSTATE, ['copies'])

p('C19', 'Containers share no state with arguments, results or other instances',
  'Lists returned by slicing, containers returned by operators, and iterables, dicts and sets passed in are independent of the container: mutating one never changes the other. Separate instances never influence each other whatever the interleaving of calls, and passing a container (or its own views and iterators) as argument to its own bulk methods works as if a snapshot had been passed.',
  ['histories', 'inputs', 'programs'], 'every result-returning operation, every pair of instances and interleaving, every self-referential argument',
  'Returning an internal segment or sharing a buffer is invisible until the caller mutates the result or uses a second instance in between, which tests do not do.',
  [SL, SD, SS], [('slices are built into new lists', SL), ('_fromset takes ownership of fresh sets', SS)], LISTSTATE, ['original after mutating the result'])

p('C20', 'Removed elements and dropped containers are released at once',
  'Once an element is removed (by any removing call), replaced or the container cleared, the container keeps no reference to it or its key, nor to an object that was only looked for. Dropping the last reference to a container frees it and its elements immediately, without the cycle collector (the deprecated iloc view, which the dict is documented to cache, aside).',
  ['histories'], 'every reachable layout, every removing call and position',
  'No test observes object lifetime; a stale reference in a cached maximum, key or positional structure changes no answer.',
  [SL, SD, SS], [('_maxes/_keys maintenance in _delete', SL), ('cached bound methods avoid cycles', SD)], LISTSTATE, ['weak references'])

p('C21', 'Reads never change what later calls do',
  'Any lookup, iteration, slice, comparison, copy or repr may be inserted anywhere in a history without changing the contents or the outcome of any later call. This includes reads that lazily build internal indexes, repeated reads, and partially consumed iterators.',
  ['histories'], 'every state, every read, followed by every mutation and every further read',
  'The positional index is built by some reads and must be maintained or dropped by every mutation; tests do not enumerate read/mutation pairs over layouts.',
  [SL, SD, SS], [('_build_index', SL), ('index maintenance in _expand/_delete/update/clear', SL)], LISTSTATE, ['later results'])

p('C22', 'Key functions are honoured and carried over everywhere',
  'A list, dict or set created with a key function orders by that key in every operation, exposes it as .key, offers bisect_key/irange_key, and every container derived from it (copy, +, * on either side, set algebra on either side, | for dicts, pickling) has the same key function and order. Values never need to be orderable themselves and unequal values with equal keys coexist.',
  ['inputs', 'configurations', 'histories'], 'every deriving operation, operand type and side, over unorderable values with colliding keys',
  'Tests of derived containers mostly use no key, or a key on values that also order naturally.',
  [SL, SD, SS], [('key passed to constructors of results', SL), ('_fromset key', SS), ('copy/__or__', SD)], [('_key', 'key function', SL)], ['.key', 'order of results'])

p('C23', 'Subclasses work: results keep the class, overrides do not break internals',
  'copy, operators and set algebra on a subclass instance return instances of the subclass. Overriding a public method that the library keeps a private reference to (such as clear, update, add, discard, __getitem__, bisect_right or __setitem__) does not change the behaviour of the other, inherited methods.',
  ['programs', 'configurations'], 'every overridable aliased method, every other operation, representative states',
  'Tests never subclass with overrides; the private aliases exist for this and can be bypassed without any test noticing.',
  [SL, SD, SS], [('private aliases _clear/_update/_getitem/_bisect_right/_setitem/_add/_discard', SL), ('self.__class__ constructors', SL)], [], ['type(result)', 'results with overrides'])

p('C24', 'Bulk operations equal the corresponding sequence of single operations',
  'update (and constructor, +=, |=) on lists, dicts and sets leaves the same container as adding the items one at a time, and the in-place set operations and slice deletions the same as removing elements one at a time, for every ratio between the size of the container and of the argument. The form of the argument (list, tuple, generator, set, dict, mapping, pairs, keyword, several iterables, empty) does not matter.',
  ['inputs', 'histories'], 'every container size and batch size around and across all strategy switches, every argument form',
  'Bulk methods switch algorithm at size ratios (4, 8, 10); tests hit a few ratios, never every pair of sizes on both sides of each switch.',
  [SL, SD, SS], [('update threshold', SL), ('slice deletion threshold', SL), ('update threshold', SD), ('update/difference_update threshold', SS)], LISTSTATE, ['contents'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
