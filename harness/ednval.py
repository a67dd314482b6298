"""EDN values and their comparison."""
from datetime import datetime
from decimal import Decimal
from uuid import UUID

from hiku.edn import Keyword, Symbol, List, Tuple, Dict, Set, TaggedElement


def same(s, a, b):
    """The same values of the same types."""
    if b is None:
        return a is None
    for cls in (Decimal, datetime, UUID):
        if isinstance(b, cls) or isinstance(a, cls):
            return type(a) is type(b) and repr(a) == repr(b)
    if isinstance(b, bool) or isinstance(a, bool):
        if not (isinstance(a, bool) and isinstance(b, bool)):
            return False
        return s.eq(a, b)
    if isinstance(b, float) or isinstance(a, float):
        return (isinstance(a, float) and isinstance(b, float)
                and repr(a) == repr(b))
    if isinstance(b, int):
        return isinstance(a, int) and s.eq(a, b)
    if isinstance(b, str):
        for cls in (Keyword, Symbol):
            if isinstance(b, cls) != isinstance(a, cls):
                return False
        return isinstance(a, str) and s.eq(str(a), str(b))
    if isinstance(b, TaggedElement):
        return isinstance(a, TaggedElement) and s.all(
            [s.eq(a.name, b.name), same(s, a.value, b.value)])
    if isinstance(b, (list, List)):
        if not isinstance(a, List) or len(a) != len(b):
            return False
        return s.all([same(s, x, y) for x, y in zip(a, b)])
    if isinstance(b, (tuple, Tuple)):
        if not isinstance(a, Tuple) or len(a) != len(b):
            return False
        return s.all([same(s, x, y) for x, y in zip(a, b)])
    if isinstance(b, (dict, Dict)):
        if not isinstance(a, Dict) or len(a) != len(b):
            return False
        return s.all([s.any([s.all([same(s, k2, k), same(s, a[k2], v)])
                             for k2 in a])
                      for k, v in b.items()])
    if isinstance(b, (set, frozenset, Set)):
        if not isinstance(a, Set) or len(a) != len(b):
            return False
        return s.all([s.any([same(s, y, x) for y in a]) for x in b])
    raise TypeError(type(b))
