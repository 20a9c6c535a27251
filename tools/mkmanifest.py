"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json

COMMON = ('Exhaustive within the stated bounds, on the real classes imported from '
          '/repo/src (no model of the code is substituted, so every trace is a run of '
          'the implementation); oracle: plain Python list/dict/set. Trusts CPython, the '
          'harness in mc/ and, for states reached by cloning, that cloning is faithful '
          '(a share of the states is rebuilt from a fresh object by replaying its '
          'history and compared). ')
N = {
 'C01': ('breadth-first explicit-state search of the real SortedList to fixpoint under a size bound, per load factor, against a sorted-list model', 'All layouts and index states reachable within the size bound for loads 4..8; grids at larger sizes and the default load.'),
 'C02': ('breadth-first explicit-state search of the real SortedKeyList to fixpoint, unorderable values with shared keys, against a list model', 'Values are complex numbers ordered by key only, several per key.'),
 'C03': ('explicit-state search; in every reachable state every index and every slice is read and compared with a list', 'All start/stop/step in and just beyond range; cold and warm positional index.'),
 'C04': ('explicit-state search; every index and slice deletion executed from every reachable state', 'Lists, keyed lists, sets and dict views.'),
 'C05': ('explicit-state search; every search call with every present, absent and boundary value in every state, against a linear scan', 'Includes every (start, stop) pair for index().'),
 'C06': ('explicit-state search; every (minimum, maximum, inclusive, reverse) combination in every state', 'Lists, keyed lists, dicts and sets.'),
 'C07': ('explicit-state search over distinguishable equal elements, compared by identity with a stable-sorted list', 'Result order of other + sl is not checked, it is not documented.'),
 'C08': ('explicit-state search with _reset as a transition, and lock-step product of different load factors', 'Documented precondition: load at least 4.'),
 'C09': ('explicit-state search; structural invariant and _check() in every reachable state', 'Reads the private fields _lists, _maxes, _index; falls back to _check() where they are absent.'),
 'C10': ('explicit-state enumeration of reachable layouts with comparison-counting elements; every position, several sizes and loads', 'Counts element comparisons, never time.'),
 'C11': ('breadth-first explicit-state search of the real SortedDict against dict + sorted()', 'Falsy/None keys, values and defaults, __missing__, keyed dicts.'),
 'C12': ('explicit-state search with long-lived views as part of the state, compared with sorted item lists and plain sets', 'Set algebra only on dicts without a key function, as stated.'),
 'C13': ('breadth-first explicit-state search of the real SortedSet against set + sorted()', 'Any number and form of iterables within the bound.'),
 'C14': ('exhaustive product of operand states, operand types, both sides of each operator, against plain sets', 'Comparison with a SortedList follows sequence order (C15).'),
 'C15': ('exhaustive product of list states, operand types and sides, against plain lists', ''),
 'C16': ('every refused call in every reachable state; before/after digests and futures compared', ''),
 'C17': ('fault enumeration inside the explicit-state search: every fault kind at every input and comparison position in every reachable state', 'Removal of a stored value by an equal value whose key raises is outside.'),
 'C18': ('every reachable state copied by every route; copy and original driven through all short histories', 'Order of set values with equal keys is not checked.'),
 'C19': ('enumeration of aliasing scenarios and of all interleavings of short programs on two instances', ''),
 'C20': ('enumeration of layouts and removing calls with weakly referenceable elements, cycle collector off', 'The deprecated iloc attribute is excluded.'),
 'C21': ('closure of the state space under reads; every operation from every member of a closure compared', ''),
 'C22': ('exhaustive product of derivations, key functions and states, and chained derivations', ''),
 'C23': ('enumeration of overridable methods, operations and states; overriding subclass run in lock step with the plain one', ''),
 'C24': ('exhaustive grid of container size, layout, batch size, pattern and form; bulk call against single calls, and later calls', ''),
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    t, n = N[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                   'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': 'model checking: ' + t, 'level': 'model_checking',
                   'level_note': (COMMON + n).strip()})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [],
           'notes': 'No hooks in /repo: the checks drive the public API and read the private fields of live objects.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
