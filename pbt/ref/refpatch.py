"""RFC 6902 JSON Patch on plain data."""
from . import refjson, refpointer


class PatchError(Exception):
    pass


def _get(doc, keys):
    try:
        return refpointer.evaluate(doc, keys)
    except refpointer.NoSuch:
        raise PatchError(f'no such location {keys}')


def _add(doc, keys, value):
    value = refjson.copy(value)
    if not keys:
        return value
    parent = _get(doc, keys[:-1])
    k = keys[-1]
    if isinstance(parent, dict):
        parent[k] = value
    elif isinstance(parent, list):
        i = len(parent) if k == '-' else refpointer.array_index(k)
        if i is None or i > len(parent):
            raise PatchError('index')
        parent.insert(i, value)
    else:
        raise PatchError('scalar parent')
    return doc


def _remove(doc, keys):
    if not keys:
        return None         # the library's convention: no document is the null document
    parent = _get(doc, keys[:-1])
    _get(doc, keys)
    if isinstance(parent, dict):
        del parent[keys[-1]]
    else:
        del parent[int(keys[-1])]
    return doc


def apply(doc, op):
    """Returns the new document; `doc` itself is not modified."""
    doc = refjson.copy(doc)
    name, keys = op['op'], refpointer.parse(op['path'])
    if name == 'add':
        return _add(doc, keys, op['value'])
    if name == 'remove':
        return _remove(doc, keys)
    if name == 'replace':
        _get(doc, keys)
        if not keys:
            return refjson.copy(op['value'])
        parent = _get(doc, keys[:-1])
        parent[keys[-1] if isinstance(parent, dict) else int(keys[-1])] = refjson.copy(op['value'])
        return doc
    if name in ('move', 'copy'):
        src = refpointer.parse(op['from'])
        value = refjson.copy(_get(doc, src))
        if name == 'copy':
            return _add(doc, keys, value)
        if len(src) < len(keys) and keys[:len(src)] == src:
            raise PatchError('move into own child')
        if src == keys:
            return doc
        return _add(_remove(doc, src), keys, value)
    if name == 'test':
        if not refjson.eq(_get(doc, keys), op['value']):
            raise PatchError('test failed')
        return doc
    raise PatchError(f'unknown op {name}')


def apply_all(doc, ops):
    for op in ops:
        doc = apply(doc, op)
    return doc
