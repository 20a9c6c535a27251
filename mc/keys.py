"""Key functions with an evaluable repr and by-name pickling; module-level subclasses."""
from .core import SortedDict, SortedKeyList, SortedList, SortedSet
from .lists import negreal


class KeyFn:
    def __init__(self, name, fn):
        self.name = name
        self.__name__ = name
        self.fn = fn

    def __call__(self, v):
        return self.fn(v)

    def __repr__(self):
        return self.name

    def __reduce__(self):
        return self.name


NEG = KeyFn('NEG', negreal)
ASC = KeyFn('ASC', lambda v: v.real)


class SubList(SortedList):
    pass


class SubKeyList(SortedKeyList):
    pass


class SubDict(SortedDict):
    pass


class SubSet(SortedSet):
    pass


class LoadList(SortedList):
    DEFAULT_LOAD_FACTOR = 4


class LoadKeyList(SortedKeyList):
    DEFAULT_LOAD_FACTOR = 5
