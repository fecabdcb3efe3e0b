"""The JSON data model, written from RFC 8259 / JSON Schema core 4.2."""
from fractions import Fraction


def typeof(v):
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'boolean'
    if isinstance(v, (int, float)):
        return 'number'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, (list, tuple)):
        return 'array'
    if isinstance(v, dict):
        return 'object'
    raise TypeError(f'not JSON: {v!r}')


def eq(a, b):
    ta, tb = typeof(a), typeof(b)
    if ta != tb:
        return False
    if ta == 'number':
        return Fraction(a) == Fraction(b)
    if ta == 'array':
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if ta == 'object':
        return len(a) == len(b) and all(k in b and eq(v, b[k]) for k, v in a.items())
    return a == b


def same(a, b):
    """Equal and with identical Python types all the way down (int/float told apart)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    return a == b


def copy(v):
    if isinstance(v, (list, tuple)):
        return [copy(x) for x in v]
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return v


def walk(v, path=()):
    """All (path, value), root first, in document order."""
    yield path, v
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from walk(x, path + (str(i),))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from walk(x, path + (k,))
