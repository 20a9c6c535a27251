"""Names used by replay files (see core.write_replay)."""
import copy  # noqa: F401
import pickle  # noqa: F401

from .core import (SC, SortedDict, SortedKeyList, SortedList,  # noqa: F401
                   SortedSet)
from .lists import negreal, realpart  # noqa: F401


def show(g):
    for name in sorted(g):
        v = g[name]
        if isinstance(v, (SortedList, SortedDict, SortedSet)):
            print(name, '=', v)
            if hasattr(v, '_check'):
                v._check()
