"""C28: validation of schemas, against the metaschema documents evaluated by the reference."""
import copy
import json
import re

from hypothesis import strategies as st

from pbt import boot
from pbt.gen import docs, schemas as gs
from pbt.ref import refjson, refpointer, refschema
from .common import Check, expect
from .schemas import DIALECTS, catalog

_registries = {}


def registry(d):
    """The published metaschema documents of the dialect."""
    if d not in _registries:
        reg = refschema.Registry()
        base = boot.VERIF / 'metaschemas' / f'json-schema-{d}'
        dialects = {**refschema.DIALECT_OF}
        for f in sorted(base.rglob('*.json')):
            doc = json.loads(f.read_text(encoding='utf-8'))
            reg.add(str(f), doc, doc['$id'], d, dialects)
        _registries[d] = reg
    return _registries[d]


def accepted(d, doc):
    reg = registry(d)
    return refschema.Evaluator(reg, limit=300000).run(reg.find(refschema.META[d]), doc).valid


# ------------------------------------------------------------- generators

SCALARS = [None, True, False, 0, 1, -1, 2.0, 1.5, -0.0, 1e20, '', 'a', '#', 'a#', '#a', 'a b', '/x', 'http://x.example/y', 'http://x.example/y#', '1a', '_a', 'string', 'number', 'a:b', '%41', 'é', '^a', '[', 'a\nb c', 'a b\nc', '\n', 'a#\nb', 'http://x.example/y\n#z']
CONTAINERS = [[], {}, [1], ['a'], ['a', 'a'], ['a', 'b'], ['string'], ['string', 'string'], ['string', 'text'], [True], [{}], [{}, {}], [[]], [None], [{'type': 1}], [False, 1],
              {'a': 1}, {'a': True}, {'a': []}, {'a': ['b']}, {'a': ['b', 'b']}, {'a': {}}, {'type': 1}, {'type': 'string'}, {'a': {'minimum': ''}}, {'': ''}, {'http://x.example/v': True}, {'x': False},
              {'^a': {}}, {'items': {'items': 1}}, {'not': {'not': 2}}, {'a': None}, {'$ref': 1}, {'$id': '#a'}, [{'$anchor': ''}], {'a': {'enum': 1}}]
palette = st.sampled_from(SCALARS + CONTAINERS).map(copy.deepcopy)


def keywords(d):
    return sorted(refschema.known(d) | {'definitions', 'dependencies', '$recursiveAnchor', '$dynamicAnchor', 'prefixItems', 'additionalItems', 'unknown', '$recursiveRef', '$dynamicRef', 'propertyDependencies'})


WRAP = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'properties', 'patternProperties', 'additionalProperties', 'propertyNames', 'items', 'items array', 'prefixItems',
        'contains', 'additionalItems', 'unevaluatedItems', 'unevaluatedProperties', '$defs', 'contentSchema', 'definitions', 'dependencies', 'const', 'enum', 'default', 'unknown', 'examples']


def wrap(how, s):
    if how in ('allOf', 'anyOf', 'oneOf', 'prefixItems', 'enum', 'examples'):
        return {how: [True, s]}
    if how in ('dependentSchemas', 'properties', 'patternProperties', '$defs', 'definitions', 'dependencies'):
        return {how: {'a': s}}
    if how == 'items array':
        return {'items': [s]}
    return {how: s}


@st.composite
def pointed(draw):
    """One keyword with an odd value, at some depth."""
    d = draw(st.sampled_from(DIALECTS))
    s = draw(st.one_of(palette, st.dictionaries(st.sampled_from(keywords(d)), palette, min_size=1, max_size=2)))
    for how in draw(st.lists(st.sampled_from(WRAP), max_size=3)):
        s = wrap(how, s)
    return {'dialect': d, 'schema': s}


ALL = {'assert': 4, 'meta': 2, 'unknown': 1, 'inplace': 2, 'object': 2, 'array': 2, 'ref': 1, 'unevaluated': 1, 'format': 1, 'content': 1, 'comment': 1}


@st.composite
def mutated(draw):
    """A valid schema document, with up to two mutations anywhere."""
    d = draw(st.sampled_from(DIALECTS))
    if draw(st.integers(0, 3)):
        doc = draw(gs.document(gs.Ctx(d, ALL, refs=2, keys=gs.key)))
    else:
        c = draw(docs.identified(depth=2, switch=False))
        d, doc = c['dialect'], c['schema']
    doc = json.loads(json.dumps(doc))
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 1, 2]))):
        locs = [p for p, _ in refjson.walk(doc)]
        path = draw(st.sampled_from(locs[:60]))
        how = draw(st.sampled_from(['replace', 'replace', 'insert', 'delete', 'append']))
        at = refpointer.evaluate(doc, path)
        if how == 'insert' and isinstance(at, dict):
            at[draw(st.sampled_from(keywords(d)))] = draw(palette)
        elif how == 'append' and isinstance(at, list):
            at.append(draw(palette))
        elif path:
            parent = refpointer.evaluate(doc, path[:-1])
            k = int(path[-1]) if isinstance(parent, list) else path[-1]
            if how == 'delete':
                del parent[k]
            else:
                parent[k] = draw(palette)
    return {'dialect': d, 'schema': doc, 'instance': draw(gs.small_instance)}


# ------------------------------------------------------------- checks

IDENTITY = {'$schema', '$id', '$ref', '$anchor', '$dynamicRef', '$dynamicAnchor', '$recursiveRef', '$recursiveAnchor', '$vocabulary'}


def constructible(schema, d):
    """No member that identifies or refers, a schema wherever one belongs, a regular expression likewise, and a format's name."""
    if isinstance(schema, bool):
        return True
    if not isinstance(schema, dict) or IDENTITY & set(schema) or 'pattern' in schema and not is_regex(schema['pattern']):
        return False
    if isinstance(schema.get('format'), (list, dict)):
        return False
    if isinstance(schema.get('patternProperties'), dict) and not all(map(is_regex, schema['patternProperties'])):
        return False
    return all(constructible(sub, d) for _, sub in list(refschema.children(schema, d)) + extra(schema, d))


def is_regex(x):
    try:
        re.compile(x)
    except (re.error, TypeError):
        return False
    return True


def extra(schema, d):
    out = [((k,), schema[k]) for k in ('contentSchema',) if isinstance(schema.get(k), (bool, dict))]
    if d == 'next' and isinstance(schema.get('propertyDependencies'), dict):
        for v in schema['propertyDependencies'].values():
            out.extend(((), x) for x in (v.values() if isinstance(v, dict) else [None]))
    return out


def judged(case, note):
    from jschon import JSON, JSONSchema, URI
    d, doc = case['dialect'], case['schema']
    want = accepted(d, doc)
    note.label('accepted' if want else 'rejected', d)
    note.nontrivial(not want or isinstance(doc, dict) and len(doc) > 1)
    cat = catalog()
    meta = URI(refschema.META[d])
    got = cat.get_metaschema(meta).evaluate(JSON(doc)).valid
    expect(got is want, '{}: the metaschema says {} of {!r}, not {}', d, got, doc, want)
    if not isinstance(doc, (dict, bool)):
        return
    with cat.cache() as cid:
        try:
            schema = JSONSchema(doc, catalog=cat, cacheid=cid, uri=URI('https://judged.example/schema'), metaschema_uri=meta)
            uri = schema.metaschema.uri
        except Exception as e:
            # refused where a schema belongs but is none, or for identifiers and references that lead nowhere
            expect(not constructible(doc, d), '{}: {!r} cannot be constructed: {!r}', d, doc, e)
            note.label('not constructed')
            return
        if uri != meta:
            note.label('other dialect')
            return
        for when in ('before', 'after'):
            got = schema.validate().valid
            expect(got is want, '{}: validate() {} use says {} of {!r}, not {}', d, when, got, doc, want)
            if when == 'before':
                for v in (case.get('instance'), {'a': 1}, ['a', 1]):
                    try:
                        schema.evaluate(JSON(v))
                    except RecursionError:
                        note.label('circular')
                    except Exception:
                        if want:
                            raise
                        note.label('not evaluated')
        expect(schema.validate().output('flag') == {'valid': want}, '{}: flag output', d)


def own(case, note):
    """The metaschemas and their vocabulary documents, under their own metaschema."""
    from jschon import JSON, URI
    d = case['dialect']
    note.nontrivial()
    reg = registry(d)
    cat = catalog()
    meta = cat.get_metaschema(URI(refschema.META[d]))
    expect(meta.validate().valid, '{} metaschema is invalid', d)
    base = boot.VERIF / 'metaschemas' / f'json-schema-{d}'
    doc = json.loads((base / 'schema.json').read_text(encoding='utf-8'))
    expect(refjson.eq(meta.value, doc), '{}: the metaschema is not the document', d)
    for f in sorted(base.rglob('*.json')):
        part = json.loads(f.read_text(encoding='utf-8'))
        expect(accepted(d, part), '{}', f)
        schema = cat.get_schema(URI(part['$id']), metaschema_uri=URI(refschema.META[d]))
        expect(schema.validate().valid and meta.evaluate(JSON(part)).valid, '{} is invalid', f)


@st.composite
def mixed(draw):
    """A document with embedded resources of other dialects, with mutations that the dialects judge differently."""
    c = draw(docs.identified(depth=3))
    doc = json.loads(json.dumps(c['schema']))
    locs = [p for p, v in refjson.walk(doc) if isinstance(v, dict)]
    for _ in range(draw(st.integers(0, 3))):
        at = refpointer.evaluate(doc, draw(st.sampled_from(locs[:60])))
        k, v = draw(st.sampled_from([('minLength', -1), ('required', ['a', 'a']), ('title', 1), ('x-unknown', -1), ('$recursiveAnchor', 'no'), ('prefixItems', []), ('dependencies', {'a': 1}),
                                     ('multipleOf', 0), ('deprecated', 'yes'), ('uniqueItems', 1), ('minContains', -2), ('$comment', 0), ('readOnly', 1), ('definitions', 1)]))
        at.setdefault(k, json.loads(json.dumps(v)))
    return {**c, 'schema': doc}


def parts(case, note):
    """Every subschema of a document, validated by itself."""
    from jschon import JSONSchema, URI
    cat = catalog()
    with cat.cache() as cid:
        try:
            root = JSONSchema(case['schema'], catalog=cat, cacheid=cid, metaschema_uri=URI(refschema.META[case['dialect']]), **({'uri': URI(case['uri'])} if case['uri'] else {}))
        except Exception as e:
            note.label(f'not constructed: {type(e).__name__}')
            return
        dialects = set()

        def visit(node, d):
            value = node.value
            if isinstance(value, dict) and '$schema' in value:
                d = refschema.DIALECT_OF[value['$schema']]
            if isinstance(value, dict):
                dialects.add(d)
                want = accepted(d, value)
                got = node.validate().valid
                expect(got is want, '{} of {!r}: validate() says {}, the {} metaschema {}', node.path, case['schema'], got, d, want)
                note.label('accepted' if want else 'rejected')
                for path, _ in refschema.children(value, d):
                    sub = node
                    for k in path:
                        sub = sub[int(k)] if sub.type == 'array' else sub[k]
                    visit(sub, d)

        visit(root, case['dialect'])
        note.nontrivial(len(dialects) > 1)
        note.label('dialects:%d' % len(dialects))


CHECKS = [
    Check('own', lambda: st.sampled_from([{'dialect': d} for d in DIALECTS]), own, 24,
          rule='the metaschemas and all their parts; always non-trivial'),
    Check('keywords', pointed, judged, 4000,
          rule='one or two keywords with values of every kind, wrapped in up to three positions; non-trivial when rejected or with two keywords'),
    Check('parts', mixed, parts, 900, rule='documents with embedded resources of other dialects and keywords on which the dialects differ, every subschema validated by itself; non-trivial with several dialects'),
    Check('documents', mutated, judged, 2000,
          rule='generated valid documents with up to two mutations anywhere; non-trivial when rejected or with two keywords'),
]
