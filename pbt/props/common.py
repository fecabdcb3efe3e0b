"""Shared pieces of the property modules."""
import contextlib

from pbt.engine import Check, Violation, expect       # noqa: re-exported
from pbt.ref import refjson, refpointer


@contextlib.contextmanager
def raises(exc, what=''):
    """The body must raise exactly (a subclass of) exc."""
    try:
        yield
    except exc:
        return
    except Exception as e:
        raise Violation(f'{what}: expected {exc}, got {type(e).__name__}: {e}') from e
    raise Violation(f'{what}: expected {exc}, nothing was raised')


def keys_of(pointer):
    return [pointer[i] for i in range(len(pointer))]


PYTYPE = {'null': type(None), 'boolean': bool, 'string': str, 'array': list, 'object': dict}


def check_tree(root, value, parent=None, key=None, rootpath=(), strict=True):
    """`root` must be a consistent JSON tree for the plain `value`."""
    from jschon import JSON, JSONPointer
    stack = [(root, value, tuple(rootpath), parent, key)]
    top = root
    toppath = tuple(rootpath)
    while stack:
        node, v, path, par, k = stack.pop()
        expect(isinstance(node, JSON), 'node at {} is {}', path, type(node))
        t = refjson.typeof(v)
        expect(node.type == t, 'type at {}: {} != {}', path, node.type, t)
        got = node.value
        expect(refjson.same(got, v) if strict else refjson.eq(got, v), 'value at {}: {!r} != {!r}', path, got, v)
        expect(node.parent is par, 'parent link at {}', path)
        expect(node.key == k and (k is None or type(node.key) is str), 'key at {}: {!r} != {!r}', path, node.key, k)
        gotpath = keys_of(node.path)
        expect(gotpath == list(path), 'path at {}: {!r}', path, gotpath)
        if t == 'array':
            expect(type(node.data) is list and len(node.data) == len(v), 'data at {}', path)
            for i, x in enumerate(v):
                stack.append((node.data[i], x, path + (str(i),), node, str(i)))
        elif t == 'object':
            expect(type(node.data) is dict and list(node.data) == list(v), 'members at {}: {!r} != {!r}', path, list(node.data), list(v))
            for kk, x in v.items():
                stack.append((node.data[kk], x, path + (kk,), node, kk))
        else:
            expect(refjson.same(node.data, v), 'data at {}', path)
        found = JSONPointer(path[len(toppath):]).evaluate(top)
        expect(found is node, 'the path {} does not lead back to its node', path)


def depth(v):
    if isinstance(v, list):
        return 1 + max(map(depth, v), default=0)
    if isinstance(v, dict):
        return 1 + max(map(depth, v.values()), default=0)
    return 0


def size(v):
    return sum(1 for _ in refjson.walk(v))


def select(value, n):
    """The n-th (modulo) location of a plain value."""
    locs = [p for p, _ in refjson.walk(value)]
    return locs[n % len(locs)]


def node_at(root, path):
    for k in path:
        root = root[int(k)] if root.type == 'array' else root[k]
    return root


def plain_at(value, path):
    return refpointer.evaluate(value, path)
