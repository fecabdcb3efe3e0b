"""Shared harness for the schema properties: builds and evaluates with the real code."""
import contextlib

from pbt.ref import refschema

DIALECTS = ('2019-09', '2020-12', 'next')
_catalog = None


def catalog():
    global _catalog
    if _catalog is None:
        from jschon import create_catalog
        _catalog = create_catalog(*DIALECTS, name='pbt-catalog')
    return _catalog


@contextlib.contextmanager
def built(doc, dialect, **kwargs):
    """The JSONSchema for a document, in a cache of its own."""
    from jschon import JSONSchema, URI
    cat = catalog()
    with cat.cache() as cacheid:
        yield JSONSchema(doc, catalog=cat, cacheid=cacheid, metaschema_uri=URI(refschema.META[dialect]), **kwargs)


def reference(doc, dialect, uri='https://ref.example/root'):
    reg = refschema.Registry()
    node = reg.add('doc', doc, uri, dialect)
    return reg, node


def feasible(doc, dialect, instances, uri='https://ref.example/root', limit=3000):
    """Whether evaluation takes a reasonable number of steps: references can multiply them without end."""
    reg, root = reference(doc, dialect, uri)
    try:
        for v in instances:
            refschema.Evaluator(reg, limit=limit).run(root, v)
    except (RuntimeError, RecursionError):
        return False
    return True


# ------------------------------------------------------------- observing results

NAME_SETS = {'properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties', 'dependentSchemas', 'contains'}
# annotations that the specification leaves to the implementation
UNSPECIFIED = {'2019-09': {'contains', 'dependentSchemas'}, '2020-12': {'dependentSchemas'}, 'next': {'dependentSchemas'}}


def tagged(v):
    """A hashable form of a JSON value: equal exactly when the values are."""
    from pbt.ref import refjson
    t = refjson.typeof(v)
    if t == 'array':
        return t, tuple(tagged(x) for x in v)
    if t == 'object':
        return t, tuple(sorted((k, tagged(x)) for k, x in v.items()))
    return t, v


def annotation(key, value):
    """An annotation value to compare: lists of names and of indices are sets."""
    if key in NAME_SETS and isinstance(value, (list, tuple)):
        items = [tagged(x) for x in value]
        if len(items) == len(set(items)):
            return 'set', tuple(sorted(items))
    return tagged(value)


def tokens(text):
    from pbt.ref import refpointer
    return tuple(refpointer.parse(text))
