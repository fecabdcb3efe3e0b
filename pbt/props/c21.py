from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refschema
from .common import Check, depth, expect
from .schemas import DIALECTS, built

dialect = st.sampled_from(DIALECTS)
MAX_STEPS = 3000


def verdict(case, note):
    from jschon import JSON
    d, doc = case['dialect'], case['schema']
    reg = refschema.Registry()
    root = reg.add('doc', doc, 'https://ref.example/root', d)
    with built(doc, d) as schema:
        for v in case['instances']:
            evaluator = refschema.Evaluator(reg, limit=MAX_STEPS)
            try:
                want = evaluator.run(root, v).valid
            except RuntimeError:
                note.label('too large')
                continue
            result = schema.evaluate(JSON(v))
            got = result.valid
            expect(got is want, '{}: {} against {!r} is {}, not {}', d, doc, v, got, want)
            for where in governed(result):
                expect(where in evaluator.applied, '{}: {} against {!r}: the schema at {} was applied to the instance at {}', d, doc, v, *where)
            note.label('valid' if want else 'invalid')
            note.nontrivial(depth(doc) >= 2)


def governed(result):
    """Which schemas were applied to which parts of the instance (except unevaluated ones, which depends on the annotations of failures)."""
    for node in result.children.values():
        if node.key in ('unevaluatedItems', 'unevaluatedProperties'):
            continue
        if len(node.relpath) == 1:      # a keyword of the schema that is being applied
            yield tuple(node.schema.path), tuple(node.instance.path)
        yield from governed(node)


def profile(weights, must, kinds=None, **kw):
    @st.composite
    def make(draw):
        d = draw(dialect)
        w = dict(weights)
        return {'dialect': d, 'schema': draw(gs.document(gs.Ctx(d, w, **kw), must=must)),
                'instances': draw(st.lists(gs.instances(kinds), min_size=2, max_size=5))}
    return make


LEAF = [True, True, False, {}, {'type': 'integer'}, {'type': 'string'}, {'const': 1}, {'minimum': 2}, {'not': {'const': 'a'}}, {'enum': ['a', 2]}]
NAMES = ['a', 'b', 'ab', 'ba', 'aab', 'x-a', 'b1', '1', '', 'é', 'a.b', 'cab']


@st.composite
def families(draw):
    """One object with most of a family of keywords that look at each other, over leaves."""
    d = draw(dialect)
    leaf = st.sampled_from(LEAF)
    kind = draw(st.sampled_from(['object', 'object', 'array', 'array', 'if']))
    doc = {}
    if kind == 'object':
        doc['properties'] = draw(st.dictionaries(st.sampled_from(NAMES), leaf, max_size=3))
        doc['patternProperties'] = draw(st.dictionaries(gs.pattern, leaf, max_size=3))
        doc['additionalProperties'] = draw(leaf)
        if draw(st.integers(0, 2)) == 0:
            doc['propertyNames'] = draw(st.sampled_from([{'pattern': 'a'}, {'maxLength': 2}, {'enum': NAMES[:8]}, {'not': {'const': 'ab'}}, {'minLength': 1}]))
        if draw(st.integers(0, 2)) == 0:
            doc['dependentSchemas'] = draw(st.dictionaries(st.sampled_from(NAMES), st.sampled_from([True, False, {'required': ['b']}, {'maxProperties': 2}, {'properties': {'a': {'const': 1}}}]), max_size=2))
        inst = st.dictionaries(st.sampled_from(NAMES), st.sampled_from([0, 1, 2, 'a', '', None, False, [], {}]), max_size=4)
    elif kind == 'array':
        n = draw(st.integers(1, 3))
        if d == '2019-09':
            doc['items'] = [draw(leaf) for _ in range(n)] if draw(st.integers(0, 4)) else draw(leaf)
            doc['additionalItems'] = draw(leaf)
        else:
            doc['prefixItems'] = [draw(leaf) for _ in range(n)]
            doc['items'] = draw(leaf)
        if draw(st.booleans()):
            doc['contains'] = draw(leaf)
            doc['minContains'] = draw(st.integers(0, 3))
            doc['maxContains'] = draw(st.integers(0, 3))
        inst = st.lists(st.sampled_from([1, 2, 'a', None, True]), max_size=5)
    else:
        test = [{'type': 'integer'}, {'minimum': 2}, {'const': 'a'}, {'required': ['a']}, {'if': {'type': 'string'}, 'then': False}, {'not': {}}, True, False, {'contains': {'const': 1}},
                {'minContains': 0, 'contains': {'const': 1}}, {'properties': {'a': {'const': 1}}}]
        for k in ('if', 'then', 'else'):
            doc[k] = draw(st.sampled_from(test))
        for k in ('allOf', 'anyOf', 'oneOf'):
            if draw(st.integers(0, 2)) == 0:
                doc[k] = draw(st.lists(st.sampled_from(test), min_size=1, max_size=4))
        inst = st.sampled_from([0, 1, 2, 3, 'a', 'b', None, [], [1], [1, 1], {}, {'a': 1}, {'a': 2}, {'b': 1}])
    names = [k for k in draw(st.permutations(list(doc))) if draw(st.integers(0, 5))]
    doc = {k: doc[k] for k in names}
    where = draw(st.sampled_from([None, None, 'not', 'allOf', 'properties', 'items']))
    instances = draw(st.lists(inst, min_size=3, max_size=6))
    if where:
        doc = {where: [doc] if where == 'allOf' else {'p': doc} if where == 'properties' else doc}
        if where in ('properties', 'items'):
            instances = [{'p': v} if where == 'properties' else [v] for v in instances]
    return {'dialect': d, 'schema': doc, 'instances': instances}


RULE = 'non-trivial when the schema has a subschema keyword'
CHECKS = [
    Check('in-place', profile({'assert': 3, 'inplace': 3}, 'inplace'), verdict, 2400,
          rule='allOf, anyOf, oneOf, not, if/then/else and dependentSchemas, nested, over assertions; ' + RULE),
    Check('objects', profile({'assert': 2, 'object': 4, 'inplace': 1}, 'object', 'object'), verdict, 2400,
          rule='properties, patternProperties, additionalProperties, propertyNames, overlapping, on objects; ' + RULE),
    Check('arrays', profile({'assert': 2, 'array': 4, 'inplace': 1}, 'array', 'array'), verdict, 2400,
          rule='prefixItems, both forms of items, additionalItems, contains and its bounds, on arrays; ' + RULE),
    Check('families', families, verdict, 4000,
          rule='one object with the keywords that look at each other (properties and patterns and the rest, positions and the rest, contains and bounds, if/then/else), over leaves; ' + RULE),
    Check('booleans', profile({'inplace': 2, 'object': 2, 'array': 2}, 'array', booleans=6), verdict, 1600,
          rule='every applicator over boolean and empty schemas; ' + RULE),
    Check('mixed', profile({'assert': 3, 'inplace': 2, 'object': 2, 'array': 2, 'ref': 1}, None, refs=2, depth=4), verdict, 2800,
          rule='everything together, deeper, with references to definitions; ' + RULE),
]
