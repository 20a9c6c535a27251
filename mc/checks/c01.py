"""C01 SortedList refines a sorted multiset; C02 shares the engine (keyed)."""
from functools import partial

from ..big import (bulk_cases, default_cases, hist_cases, op_case, q_some_ints,
                   run_hist)
from ..core import Cov
from ..domains import list_case, list_cases
from ..lists import ListSys, q_basic, q_light
from ..wide import runs_cases, w_check, w_contents, wide_case, wide_cases
from ..matrix import matrix_cases, matrix_large
from ..matrix import list_case as matrix_list_case

KIND = 'list'


def run(tier, kind=KIND):
    cov = Cov()
    deep = tier == 'thorough'
    B = (q_basic,)
    cov.bfs('full-distinct', ListSys(
        kind, 4, 13 if deep else 11, opset='full', battery=B,
        slices='full' if deep else 'few'))
    cov.bfs('core-distinct', ListSys(kind, 4, 24 if deep else 19, battery=B))
    cov.bfs('full-ties', ListSys(
        kind, 4, 12 if deep else 10, distinct=False, kmax=3,
        opset='full', battery=B))
    cov.bfs('core-ties', ListSys(
        kind, 4, 14 if deep else 12, distinct=False, kmax=3, battery=B))
    cov.bfs('core-load5', ListSys(kind, 5, 20 if deep else 15, battery=B))
    cov.bfs('core-load6', ListSys(kind, 6, 22 if deep else 16, battery=B))
    cov.cases('histories', 'growth x shrink x read patterns, 60 elements',
              hist_cases((kind,), (4, 5, 7, 8) if deep else (4, 6), 90 if deep else 60),
              partial(run_hist, battery=(q_light, q_basic)))
    cov.cases('bulk', 'bulk-built, every position, one operation',
              bulk_cases((kind,), (4, 5), (9, 17, 33, 65, 130) if deep
                         else (9, 17, 33, 66)),
              partial(op_case, battery=(q_light,)))
    cov.cases('default-load', 'default load factor around 1000, 2000, 3000, 4001',
              default_cases((kind,)), partial(op_case, battery=(q_some_ints,)))
    cov.cases('domains', 'values other than numbers: every history of %d calls' %
              (3 if deep else 2), list_cases(False, 3 if deep else 2), list_case)
    cov.cases('wide', 'lists of 16 to 1000 segments in three layouts, nine operations '
              'in every part of them, twice and thrice',
              wide_cases((kind,), (68, 131, 260, 520, 1030, 2060) if deep else (68, 260, 1030)),
              partial(wide_case, battery=(w_contents, w_check)), timeout=300)
    cov.cases('runs', 'long runs of equal keys over many segments in three layouts, nine '
              'operations in every part of them, twice and thrice',
              runs_cases(('list',), (23, 51, 96, 181, 370) if deep else (23, 51, 96)),
              partial(wide_case, battery=(w_contents, w_check,)), timeout=300)
    cov.cases('operands', 'every form of operand x sizes x overlap x load: list',
              matrix_cases(deep, ('none',), (4, None)),
              partial(matrix_list_case, part='contents'), timeout=300)
    cov.cases('operands-large', 'the same around the default load factor',
              [c for c in matrix_large() if c[3] in ('none',)],
              partial(matrix_list_case, part='contents'), timeout=300)
    return cov.result()
