from hypothesis import strategies as st

from pbt.gen import schemas as gs
from .common import Check
from .c21 import profile, verdict

RULE = 'non-trivial when the schema has a subschema keyword'


def around(child, sub_keys):
    """A schema whose root has an unevaluated keyword over branches that evaluate
    different parts of the instance and succeed or fail on their own grounds."""
    new_or_old = st.sampled_from(gs_dialects)

    @st.composite
    def make(draw):
        d = draw(new_or_old)
        keyword = 'unevaluatedProperties' if child == 'object' else 'unevaluatedItems'
        # half the time next to everything passes, and what counts is how much each branch evaluates
        leaves = draw(st.sampled_from([LEAF, LENIENT]))
        doc = branch(draw, d, child, 3, -1, leaves)
        if draw(st.integers(0, 3)):
            values = [False, {'type': 'integer'}, {'const': 1}, {'title': 'u'}]
            doc[keyword] = draw(st.sampled_from(values + [{'title': 'u'}] * 4 if leaves is LENIENT else values + [False, False, True]))
        defs = {}
        for i in range(2):
            defs['d%d' % i] = branch(draw, d, child, 1, i, leaves)
        doc['$defs'] = defs
        if draw(st.booleans()):
            doc = {k: doc[k] for k in draw(st.permutations(list(doc)))}
        if child == 'object':
            inst = st.dictionaries(gs.simple_key, st.sampled_from([1, 2, 'a', None, {'a': 1}, {'b': 'x'}, {'a': 1, 'b': 2, 'c': 3}]), max_size=4)
        else:
            inst = st.lists(st.sampled_from([1, 2, 'a', None, [1], [1, 'a'], [1, 2, 3]]), max_size=5)
        return {'dialect': d, 'schema': doc, 'instances': draw(st.lists(inst, min_size=3, max_size=6))}
    return make


gs_dialects = ('2019-09', '2020-12', 'next')
LENIENT = [True, True, True, {}, {'title': 't'}, False]
LEAF = [True, True, True, {}, {'type': 'integer'}, {'type': 'string'}, {'const': 1}, False]


# what these evaluate one level down does not count above
BELOW = [{'unevaluatedProperties': True}, {'unevaluatedItems': {}}, {'properties': {'a': True, 'b': {}}, 'prefixItems': [True, True]}, {'additionalProperties': {}, 'items': {}}, {'contains': True}]
LENIENT += BELOW
LEAF += BELOW


def seen(case, note):
    """The verdict, and on valid instances also to what each keyword was applied."""
    from .c26 import annotations
    annotations({**case, 'extra': []}, note)


def branch(draw, d, child, deep, at, leaves):
    out = {}
    for _ in range(draw(st.integers(1, 2))):
        leaf = st.sampled_from(leaves)
        if child == 'object':
            k = draw(st.sampled_from(['properties', 'properties', 'patternProperties', 'additionalProperties', 'required', 'maxProperties']))
            if k == 'properties':
                out[k] = {draw(gs.simple_key): draw(leaf) for _ in range(draw(st.integers(1, 2)))}
            elif k == 'patternProperties':
                out[k] = {draw(st.sampled_from(['^a', 'b$', 'a'])): draw(leaf)}
            elif k == 'additionalProperties':
                if draw(st.booleans()):
                    out[k] = draw(leaf)
            elif k == 'required':
                out[k] = [draw(gs.simple_key)]
            else:
                out[k] = draw(st.integers(1, 3))
        else:
            k = draw(st.sampled_from(['prefix', 'prefix', 'rest', 'contains', 'contains', 'minItems', 'maxItems'] + ['prefix'] * (3 if leaves is LENIENT else 0)))
            if k == 'prefix':
                out['items' if d == '2019-09' else 'prefixItems'] = [draw(leaf) for _ in range(draw(st.integers(1, 4 if leaves is LENIENT else 2)))]
            elif k == 'rest':
                if draw(st.booleans()):
                    if d == '2019-09' and isinstance(out.get('items'), list):
                        out['additionalItems'] = draw(leaf)
                    else:
                        out['items'] = draw(leaf)
            elif k == 'contains':
                out[k] = draw(leaf)
                if draw(st.integers(0, 2)) == 0:
                    out['minContains'] = draw(st.integers(0, 2))
                if draw(st.integers(0, 3)) == 0:
                    out['maxContains'] = draw(st.integers(0, 2))
            else:
                out[k] = draw(st.integers(1, 3))
    if deep > 0:
        for _ in range(draw(st.integers(0, 2))):
            k = draw(st.sampled_from(['allOf', 'anyOf', 'oneOf', 'not', 'if', 'if', 'ref', 'nested', 'dependentSchemas', 'items'] + ['allOf', 'anyOf'] * (leaves is LENIENT)))
            if k in ('allOf', 'anyOf', 'oneOf'):
                out[k] = [branch(draw, d, child, deep - 1, at, leaves) for _ in range(draw(st.integers(1, 3)))]
            elif k == 'not':
                out[k] = branch(draw, d, child, deep - 1, at, leaves)
                if draw(st.booleans()):
                    out[k] = {'not': out[k]}
            elif k == 'if':
                out[k] = branch(draw, d, child, deep - 1, at, leaves)
                if draw(st.booleans()):
                    out['then'] = branch(draw, d, child, deep - 1, at, leaves)
                if draw(st.booleans()):
                    out['else'] = branch(draw, d, child, deep - 1, at, leaves)
            elif k == 'ref':
                if at + 1 < 2:
                    out['$ref'] = '#/$defs/d%d' % draw(st.integers(at + 1, 1))
            elif k == 'nested':
                out['unevaluatedProperties' if child == 'object' else 'unevaluatedItems'] = draw(st.sampled_from(leaves))
            elif k == 'dependentSchemas' and child == 'object':
                out[k] = {draw(gs.simple_key): branch(draw, d, child, deep - 1, at, leaves)}
            elif k == 'items' and child == 'array' and 'items' not in out:
                # one level down: what is evaluated there does not count here
                out['items'] = branch(draw, d, child, deep - 1, at, leaves)
    return out


@st.composite
def before(draw):
    """The unevaluated keyword comes before the one keyword through which something is evaluated."""
    d = draw(st.sampled_from(gs_dialects))
    child = draw(st.sampled_from(['object', 'array']))
    items = 'items' if d == '2019-09' else 'prefixItems'
    size = draw(st.integers(1, 3))
    if child == 'object':
        names = ['a', 'b', 'c'][:size]
        plain = [{'properties': {n: True for n in names}}, {'patternProperties': {'^[%s]' % ''.join(names): {}}}, {'additionalProperties': {}}, {'unevaluatedProperties': True}]
        keyword, fails = 'unevaluatedProperties', {'required': ['z']}
        instances = [dict.fromkeys(list('abcd')[:n], 1) for n in range(1, 5)] + [{'b': 1}, {'c': 2, 'a': 1}]
    else:
        plain = [{items: [True] * size}, {'items': {}}, {'unevaluatedItems': {}}]
        if d != '2019-09':
            plain += [{'contains': {'type': 'integer'}}, {items: [True], 'items': True}]
        else:
            plain += [{items: [True], 'additionalItems': True}]
        keyword, fails = 'unevaluatedItems', {'minItems': 9}
        instances = [[1] * n for n in range(1, 5)] + [['x', 1], [1, 'x', 1]]
    provider = draw(st.sampled_from(plain))
    how = draw(st.sampled_from(['adjacent', 'adjacent', 'same', 'allOf', 'anyOf', 'oneOf', 'if', 'then', 'else', 'not', '$ref', 'dynamic', 'dependentSchemas']))
    doc = {keyword: draw(st.sampled_from([False, False, {'type': 'string'}, {'title': 'u'}]))}
    if how == 'adjacent':
        # others that come before what they depend on
        value = draw(st.sampled_from([False, {'type': 'string'}, {'title': 'u'}]))
        if child == 'object':
            doc = {'additionalProperties': value, **draw(st.sampled_from(plain[:2])), **draw(st.sampled_from(plain[:2]))}
        else:
            doc = {'maxContains': 2, 'minContains': draw(st.integers(0, 2)), 'contains': {'const': 1}} if draw(st.integers(0, 3)) == 0 else {}
            doc.update({'additionalItems' if d == '2019-09' else 'items': value, items: [True] * size})
        if draw(st.integers(0, 3)) == 0:
            doc = {'else': {'title': 'else', **doc}, 'then': {'title': 'then', **doc}, 'if': {'required': ['b'], 'minItems': 2}}
    elif how == 'same':
        doc.update((k, v) for k, v in provider.items() if k != keyword)
    elif how in ('allOf', 'anyOf'):
        doc[how] = draw(st.permutations([provider, {'title': 't'}]))
    elif how == 'oneOf':
        doc[how] = draw(st.permutations([provider, fails]))
    elif how == 'then':
        doc.update(draw(st.permutations([('if', True), ('then', provider)])))
    elif how == 'else':
        doc.update(draw(st.permutations([('if', fails), ('else', provider)])))
    elif how == '$ref':
        doc.update({'$ref': '#/$defs/p', '$defs': {'p': provider}})
    elif how == 'dynamic':
        if d == '2019-09':
            # on the root, which stops at its own first condition
            doc = {'if': {'required': ['nested']} if child == 'object' else {'minItems': 9}, 'then': {}, 'else': provider, '$defs': {}}
            doc = {'$id': 'https://before.example/r', 'properties': {'x': {keyword: False, '$recursiveRef': '#'}}, 'items': {keyword: False, '$recursiveRef': '#'},
                   **{k: v for k, v in provider.items() if k not in ('properties', 'items')}}
            instances = [{'x': v} for v in instances] + [[v] for v in instances]
        else:
            doc.update({'$dynamicRef': '#p', '$defs': {'p': {'$dynamicAnchor': 'p', **provider}}})
    elif how == 'dependentSchemas':
        if child == 'object':
            doc[how] = {'a': provider}
    else:
        doc[how] = provider
    if draw(st.integers(0, 3)) == 0:
        doc = {k: doc[k] for k in draw(st.permutations(list(doc)))}
    return {'dialect': d, 'schema': doc, 'instances': draw(st.permutations(instances))}


CHECKS = [
    Check('before', before, seen, 1600,
          rule='an unevaluated keyword in front of the one keyword through which anything is evaluated; non-trivial with more than two annotations'),
    Check('properties', around('object', None), seen, 4000,
          rule='unevaluatedProperties over branches that evaluate parts of the object and succeed or fail independently, with the annotations that tell what was evaluated; non-trivial when there are more than two of them'),
    Check('items', around('array', None), seen, 4000,
          rule='unevaluatedItems likewise, on arrays; non-trivial with more than two annotations'),
    Check('mixed', profile({'assert': 1, 'inplace': 3, 'object': 3, 'array': 3, 'unevaluated': 4, 'ref': 1}, 'unevaluated', refs=2, depth=3), verdict, 3200,
          rule='unevaluated keywords anywhere in schemas of every kind; ' + RULE),
]
