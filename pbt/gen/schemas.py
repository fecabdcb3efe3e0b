"""Strategies for schemas and for instances that reach into them."""
from hypothesis import strategies as st

from pbt.ref import refschema

KEYS = ['a', 'b', 'c', 'ab', 'aa', 'x-1', '1', 'ba']
ODD_KEYS = ['', 'a/b', 'm~n', '%25', 'é', '0', 'title', 'properties', 'items', '$ref']
STRINGS = ['', 'a', 'b', 'ab', 'aab', 'aa', 'x-1', '1', '12', 'c', 'é', '\U0001d4b3', 'abc', '/', '~', 'a.b']
NUMBERS = [0, 1, 2, 3, -1, -2, 5, 10, 0.5, 1.5, 1.0, 2.0, 0.1, 0.3, -0.0, 4, 6, 7, 1e20, 10 ** 20]
TYPES = ['null', 'boolean', 'number', 'string', 'array', 'object', 'integer']
UNKNOWN = ['foo', 'x-note', 'zzz', 'definitions', 'a', '$unknown', 'Type']
FORMATS = ['json-pointer', 'date', 'email', 'frobnicate']

key = st.one_of(st.sampled_from(KEYS[:3]), st.sampled_from(KEYS), st.sampled_from(KEYS[:4] + ODD_KEYS))
simple_key = st.sampled_from(KEYS[:4])
scalar = st.one_of(st.none(), st.booleans(), st.sampled_from(NUMBERS), st.sampled_from(STRINGS), st.sampled_from([0, 1, 2, 'a', 'b']))
pattern = st.sampled_from(sorted(refschema.PATTERNS))


def _containers(ch):
    return st.one_of(st.lists(ch, max_size=4), st.dictionaries(key, ch, max_size=4))


instance = st.recursive(scalar, _containers, max_leaves=10)
small_instance = st.recursive(scalar, _containers, max_leaves=4)
array_instance = st.lists(st.one_of(scalar, small_instance), max_size=5)
object_instance = st.dictionaries(key, st.one_of(scalar, small_instance), max_size=5)
long_array = st.lists(st.one_of(scalar, st.sampled_from([0, 1, True, None, 'a', [], {}])), min_size=8, max_size=20)
long_object = st.dictionaries(st.one_of(key, st.integers(0, 40).map(str)), scalar, min_size=8, max_size=16)


def instances(kinds=None):
    """Instances, mostly of the given container kinds."""
    if kinds == 'array':
        return st.one_of([array_instance] * 9 + [instance] * 3 + [long_array])
    if kinds == 'object':
        return st.one_of([object_instance] * 9 + [instance] * 3 + [long_object])
    return st.one_of([instance, array_instance, object_instance, scalar] * 4 + [long_array, long_object])


counts = st.one_of(st.integers(0, 4), st.sampled_from([0.0, 1.0, 2.0, 3.0]))


def assertion_value(k):
    if k == 'type':
        return st.one_of(st.sampled_from(TYPES), st.lists(st.sampled_from(TYPES), min_size=1, max_size=3, unique=True))
    if k == 'enum':
        return st.lists(small_instance, min_size=1, max_size=4)
    if k == 'const':
        return small_instance
    if k == 'multipleOf':
        return st.sampled_from([1, 2, 3, 0.5, 0.1, 1.0, 2.0, 0.3, 1.5, 5, 7, 10, 0.01])
    if k in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'):
        return st.sampled_from(NUMBERS)
    if k == 'pattern':
        return pattern
    if k == 'uniqueItems':
        return st.booleans()
    if k == 'required':
        return st.lists(simple_key, max_size=2, unique=True)
    if k == 'dependentRequired':
        return st.dictionaries(simple_key, st.lists(simple_key, max_size=2, unique=True), max_size=2)
    return counts


ASSERTIONS = ['type', 'enum', 'const', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength',
              'minLength', 'pattern', 'maxItems', 'minItems', 'uniqueItems', 'maxProperties', 'minProperties', 'required', 'dependentRequired']
INPLACE = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'dependentSchemas']
OBJECT = ['properties', 'patternProperties', 'additionalProperties', 'propertyNames']
ARRAY = ['prefixItems', 'items', 'contains', 'additionalItems']
UNEVALUATED = ['unevaluatedItems', 'unevaluatedProperties']
META = ['title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples']
CONTENT = ['contentMediaType', 'contentEncoding', 'contentSchema']
GROUPS = {'assert': ASSERTIONS, 'inplace': INPLACE, 'object': OBJECT, 'array': ARRAY, 'unevaluated': UNEVALUATED,
          'meta': META, 'content': CONTENT, 'format': ['format'], 'unknown': ['?'], 'ref': ['$ref'], 'comment': ['$comment']}


class Ctx:
    """What a schema may contain.

    weights: group name -> weight; refs: how many $defs there are to refer to
    (None: no references); at: the index of the definition being drawn
    (-1: the root), so that references that stay on the same instance only go
    to later definitions and every schema terminates on every instance."""

    def __init__(self, dialect, weights, depth=3, width=3, refs=0, booleans=2, keys=simple_key):
        self.dialect, self.weights, self.depth, self.width, self.refs, self.booleans, self.keys = \
            dialect, weights, depth, width, refs, booleans, keys
        self.names = [g for g, w in weights.items() for _ in range(w)]


@st.composite
def schema(draw, ctx, depth=None, at=-1, guarded=False, must=None, allow_bool=True):
    depth = ctx.depth if depth is None else depth
    if allow_bool and draw(st.integers(0, 9)) < ctx.booleans:
        return draw(st.sampled_from([True, True, False, {}]))
    out = {}
    n = draw(st.integers(1, ctx.width))
    for i in range(n):
        group = must if i == 0 and must else draw(st.sampled_from(ctx.names))
        k = draw(st.sampled_from(GROUPS[group]))
        add_keyword(draw, ctx, out, k, depth, at, guarded)
    if draw(st.booleans()) and len(out) > 1:
        ks = draw(st.permutations(list(out)))
        out = {k: out[k] for k in ks}
    return out


def add_keyword(draw, ctx, out, k, depth, at, guarded):
    new = ctx.dialect != '2019-09'

    def same():
        return sub(draw, ctx, depth, at, guarded)

    def below():
        return sub(draw, ctx, depth, at, True)

    if k in ASSERTIONS:
        out[k] = draw(assertion_value(k))
    elif k in ('allOf', 'anyOf', 'oneOf'):
        out[k] = [same() for _ in range(draw(st.integers(1, 3)))]
    elif k == 'not':
        out[k] = same()
    elif k == 'if':
        if draw(st.integers(0, 9)):
            out['if'] = same()
        for kk in draw(st.sampled_from([('then', 'else'), ('else', 'then'), ('then',), ('else',), ()])):
            out[kk] = same()
    elif k == 'dependentSchemas':
        out[k] = {draw(ctx.keys): same() for _ in range(draw(st.integers(1, 2)))}
    elif k == 'properties':
        out[k] = {draw(ctx.keys): below() for _ in range(draw(st.integers(0, 3)))}
    elif k == 'patternProperties':
        out[k] = {draw(pattern): below() for _ in range(draw(st.integers(0, 2)))}
    elif k in ('additionalProperties', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties'):
        if k.startswith('unevaluated') or k == 'additionalProperties':
            out[k] = draw(st.sampled_from([False, False, None])) if draw(st.booleans()) else below()
            if out[k] is None:
                out[k] = True
        else:
            out[k] = below()
    elif k == 'prefixItems':
        name = k if new else 'items'
        out[name] = [below() for _ in range(draw(st.integers(1, 3)))]
    elif k == 'items':
        if new or draw(st.integers(0, 3)):
            out['items'] = below()
        else:
            out['items'] = [below() for _ in range(draw(st.integers(1, 3)))]
    elif k == 'additionalItems':
        if not new:
            out[k] = below()
            if draw(st.integers(0, 4)):
                out['items'] = [below() for _ in range(draw(st.integers(1, 2)))]
        else:
            add_keyword(draw, ctx, out, 'prefixItems', depth, at, guarded)
    elif k == 'contains':
        if draw(st.integers(0, 9)):
            out[k] = below()
        if draw(st.booleans()):
            out['minContains'] = draw(counts)
        if draw(st.booleans()):
            out['maxContains'] = draw(counts)
    elif k in ('title', 'description', 'contentMediaType', 'contentEncoding', '$comment'):
        out[k] = draw(st.sampled_from(['T', 'U', '', 'base64', 'application/json']))
    elif k in ('deprecated', 'readOnly', 'writeOnly'):
        out[k] = draw(st.booleans())
    elif k == 'default':
        out[k] = draw(small_instance)
    elif k == 'examples':
        out[k] = draw(st.lists(small_instance, max_size=2))
    elif k == 'contentSchema':
        out[k] = draw(st.sampled_from([True, {}, {'type': 'string'}, {'title': 'inner'}]))
        if draw(st.booleans()):
            out['contentMediaType'] = 'application/json'
    elif k == 'format':
        out[k] = draw(st.sampled_from(FORMATS))
    elif k == '?':
        out[draw(st.sampled_from(UNKNOWN))] = draw(small_instance)
    elif k == '$ref':
        lowest = 0 if guarded else at + 1
        choices = ['#/$defs/d%d' % i for i in range(lowest, ctx.refs)]
        if guarded:
            choices.append('#')
        if choices:
            out['$ref'] = draw(st.sampled_from(choices))
        else:
            out['type'] = draw(assertion_value('type'))
    else:
        raise AssertionError(k)


def sub(draw, ctx, depth, at, guarded):
    if depth <= 0:
        if 'assert' in ctx.weights and draw(st.integers(0, 2)):
            k = draw(st.sampled_from(ASSERTIONS))
            return {k: draw(assertion_value(k))}
        return draw(st.sampled_from([True, True, False, {}]))
    return draw(schema(ctx, depth - 1, at, guarded))


@st.composite
def document(draw, ctx, must=None):
    """A whole schema document: an object, with its $defs if it refers to any."""
    root = draw(schema(ctx, at=-1, must=must, allow_bool=False))
    if ctx.refs:
        root['$defs'] = {'d%d' % i: draw(schema(ctx, max(ctx.depth - 1, 1), at=i)) for i in range(ctx.refs)}
    return root
