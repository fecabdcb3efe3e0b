"""C31: totality: every accepted schema works on every instance, and every refusal is clean."""
import contextlib
import json
import re

from hypothesis import strategies as st

from pbt.gen import docs, schemas as gs
from pbt.ref import refjson, refpointer, refschema, refuri
from . import c28
from .common import Check, Violation, expect
from .schemas import DIALECTS, catalog

HOST = 'https://total.example/'
MAX_STEPS = 1500
FORMATS = ('flag', 'basic', 'detailed', 'verbose', 'hierarchical')
META = {d: refschema.META[d] for d in DIALECTS}


# ------------------------------------------------------------- what must work

def patterns(node):
    v = node.value
    if isinstance(v, dict):
        if 'pattern' in v:
            yield v['pattern']
        yield from v.get('patternProperties', {})


def domain(d, doc):
    """'works' if it must be constructed, 'open' if it may be refused, None if anything goes; and the reference registry."""
    if not c28.accepted(d, doc):
        return None, None
    reg = refschema.Registry()
    try:
        reg.add('doc', doc, HOST + 'doc', d)
    except Exception:
        return 'open', None         # a dialect or an identifier that leads nowhere
    verdict = 'works'
    for node in reg.nodes.values():
        if not isinstance(node.value, dict):
            continue
        for p in patterns(node):
            try:
                re.compile(p)
            except re.error:
                return None, None
        if node.dialect != d and not (node.root.dialect == node.dialect and c28.accepted(node.dialect, node.value)):
            verdict = 'open'
        for k in ('$ref', '$dynamicRef', '$recursiveRef'):
            if k in node.value and k in refschema.known(node.dialect):
                try:
                    reg.find(refuri.resolve(node.value[k], node.base))
                except Exception:
                    verdict = 'open'
        if '$id' in node.value:
            try:
                if not refuri.split(node.base)[0]:
                    verdict = 'open'
            except Exception:
                verdict = 'open'
    return verdict, reg


def terminates(reg, instance):
    """Whether the references do not run in circles on the instance; its verdict."""
    if reg is None:
        return False, None
    try:
        return True, refschema.Evaluator(reg, limit=MAX_STEPS).run(reg.nodes['doc', ()], instance).valid
    except (RuntimeError, RecursionError):
        return False, None
    except refschema.Unresolvable:
        return False, None


def exercise(schema, reg, instances, note):
    from jschon import JSON
    for v in instances:
        ok, want = terminates(reg, v)
        if not ok:
            note.label('circular or open')
            continue
        result = schema.evaluate(JSON(v))
        if want is not None:
            expect(result.valid is want, '{!r} is {}, not {}', v, result.valid, want)
        note.label('valid' if result.valid else 'invalid')
        for f in FORMATS:
            out = result.output(f)
            text = json.dumps(out, allow_nan=False)
            expect(json.loads(text) == out, '{} output does not survive JSON: {}', f, text)
            expect(out['valid'] is result.valid, '{} output says {}', f, out['valid'])
        list(result.collect_annotations())
        list(result.collect_errors())
        str(result)


def total(case, note):
    from jschon import JSONSchema, URI
    from jschon.exc import JschonError
    d, doc = case['dialect'], case['schema']
    verdict, reg = domain(d, doc)
    note.label(verdict or 'out of domain')
    if verdict is None:
        return
    cat = catalog()
    with cat.cache() as cid:
        try:
            schema = JSONSchema(doc, catalog=cat, cacheid=cid, uri=URI(HOST + 'doc'), metaschema_uri=URI(META[d]))
        except JschonError as e:
            if verdict == 'works':
                raise Violation(f'{d}: {doc} is refused: {type(e).__name__}: {e}') from e
            note.label('refused')
            return
        note.nontrivial(isinstance(doc, dict) and len(doc) > 1)
        expect(refjson.eq(schema.value, doc), 'the value {!r} is not the document {!r}', schema.value, doc)
        expect(schema.validate().valid or verdict != 'works', '{}: {} is not valid', d, doc)
        for f in FORMATS:
            schema.validate().output(f)
        exercise(schema, reg, case['instances'], note)
        str(schema), repr(schema)


# ------------------------------------------------------------- odd but valid

ODD_NUMBERS = [0, 1, -1, 0.5, -0.0, 1e300, 1e308, 5e-324, 2 ** 53 + 1, 10 ** 40, 10 ** 400, -10 ** 400, 1.0, 1e16, 0.1, 1e-7]
ODD_STRINGS = ['', ' ', 'a', '/', '~', '~1', '%', '%zz', '#', '\x00', '\n', 'é', '\U0001d4b3', '"', "'", '\\', '{}', '{0}', '%s', '$ref', '$id', 'properties', '__class__', 'a' * 300, '0', '-1', 'None', '\ufeff', '\u202e', 'e\u0301']
odd_name = st.one_of(st.sampled_from(ODD_STRINGS), st.sampled_from(['a', 'b', 'items', 'type', '__init__', 'self', 'key', 'value', 'resolve', 'json']), st.text(st.characters(exclude_categories=['Cs']), max_size=4))
odd_scalar = st.one_of(st.none(), st.booleans(), st.sampled_from(ODD_NUMBERS), odd_name)
odd_instance = st.recursive(odd_scalar, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(odd_name, c, max_size=4)), max_leaves=8)
counts = st.sampled_from([0, 1, 2, 0.0, 1.0, 1e300, 10 ** 40, 10 ** 400, 3, 2 ** 64])
ODD_PATTERNS = ['', '.', '^', '$', '^$', 'a|b', '[^a]', '(a)(b)?', '(?:x)*', '\\d', '\\w+', '\\.', '[\\]]', '^\\S*$', '(?=a)', 'é', '\\u00e9', '~', '/', '.{0,3}', '(a|aa)+b?']


def odd_value(draw, k, d, sub):
    if k in ('allOf', 'anyOf', 'oneOf', 'prefixItems', 'items array'):
        return [sub() for _ in range(draw(st.integers(1, 2)))]
    if k in ('not', 'if', 'then', 'else', 'additionalProperties', 'propertyNames', 'contains', 'items', 'additionalItems', 'unevaluatedItems', 'unevaluatedProperties', 'contentSchema'):
        return sub()
    if k in ('dependentSchemas', 'properties', '$defs', 'patternProperties', 'dependencies', 'definitions', 'propertyDependencies'):
        names = draw(st.lists(st.sampled_from(ODD_PATTERNS) if k == 'patternProperties' else odd_name, max_size=3, unique=True))
        if k == 'propertyDependencies':
            return {n: {draw(odd_name): sub()} for n in names}
        return {n: sub() for n in names}
    if k == 'type':
        return draw(st.one_of(st.sampled_from(gs.TYPES), st.lists(st.sampled_from(gs.TYPES), min_size=1, max_size=7, unique=True)))
    if k == 'enum':
        return draw(st.lists(odd_instance, max_size=3))
    if k == 'multipleOf':
        return draw(st.sampled_from([x for x in ODD_NUMBERS if x > 0]))
    if k in ('maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'):
        return draw(st.sampled_from(ODD_NUMBERS))
    if k == 'pattern':
        return draw(st.sampled_from(ODD_PATTERNS))
    if k in ('uniqueItems', 'deprecated', 'readOnly', 'writeOnly', '$recursiveAnchor'):
        return draw(st.booleans())
    if k == 'required':
        return draw(st.lists(odd_name, max_size=3, unique=True))
    if k == 'dependentRequired':
        return draw(st.dictionaries(odd_name, st.lists(odd_name, max_size=2, unique=True), max_size=2))
    if k in ('title', 'description', '$comment', 'format', 'contentMediaType', 'contentEncoding'):
        return draw(odd_name)
    if k == 'examples':
        return draw(st.lists(odd_instance, max_size=3))
    if k == '$vocabulary':
        return draw(st.dictionaries(st.sampled_from(['https://v.example/a', 'urn:v', META[d]]), st.booleans(), max_size=2))
    if k == '$schema':
        return META[d]
    if k == '$anchor' or k == '$dynamicAnchor':
        return draw(st.sampled_from(['a', 'Z-9', '_x' if d != '2019-09' else 'x', 'a.b', 'a_b']))
    if k == '$ref' or k == '$dynamicRef':
        return draw(st.sampled_from(['#', '', '#/$defs/t', 'doc', 'doc#', HOST + 'doc#/$defs/t', '#/%24defs/t', '../doc']))
    if k == '$recursiveRef':
        return '#'
    if k in ('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties', 'maxContains', 'minContains'):
        return draw(counts)
    return draw(odd_instance)


ODD_KEYWORDS = {d: [k for k in c28.keywords(d) if k not in ('$id', 'unknown', '$recursiveRef', '$recursiveAnchor', '$dynamicRef', '$dynamicAnchor')] + ['default', 'examples', 'x', '?', '?', 'properties', 'allOf']
                + (['$recursiveRef', '$recursiveAnchor', 'items array'] if d == '2019-09' else ['$dynamicRef', '$dynamicAnchor']) for d in DIALECTS}


@st.composite
def odd(draw):
    d = draw(st.sampled_from(DIALECTS))
    budget = [draw(st.sampled_from([3, 6, 12, 20]))]

    def schema(depth, top=False):
        budget[0] -= 1
        if not top and (depth <= 0 or budget[0] < 0 or draw(st.integers(0, 4)) == 0):
            return draw(st.sampled_from([True, False, {}, {'type': 'object'}, {'const': None}, {'title': ''}]))
        out = {}
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.sampled_from(ODD_KEYWORDS[d]))
            name = draw(odd_name) if k == '?' else 'items' if k == 'items array' else k
            if k == '?' and (name in refschema.known(d) or name.startswith('$')):
                continue
            if name == '$schema' and not top:
                continue
            out[name] = odd_value(draw, k, d, lambda: schema(depth - 1))
        return out

    doc = schema(3, True)
    if draw(st.booleans()):
        doc['$defs'] = {**doc.get('$defs', {}), 't': draw(st.sampled_from([True, False, {}, {'title': 't'}, {'properties': {'a': {'$ref': '#'}}}, {'items': {'$ref': ''}}]))}
    return {'dialect': d, 'schema': doc, 'instances': draw(st.lists(st.one_of(odd_instance, gs.instances()), min_size=2, max_size=4))}


@st.composite
def mutated(draw):
    c = draw(c28.mutated())
    return {'dialect': c['dialect'], 'schema': c['schema'], 'instances': [c['instance']] + draw(st.lists(st.one_of(gs.instances(), odd_instance), min_size=1, max_size=3))}


# ------------------------------------------------------------- deep and wide

def deep(case, note):
    """Nesting well within the interpreter's stack, and wide schemas, work."""
    from jschon import JSON, JSONSchema, URI
    d, how, n = case['dialect'], case['how'], case['n']
    meta = URI(META[d])
    note.nontrivial(n > 5)
    note.label(how)
    leaf = {'type': 'integer'}
    good, bad = 1, 'x'
    schema, path = leaf, []
    if how == 'allOf':
        for i in range(n):
            schema = {'allOf': [True, schema]}
    elif how == 'not':
        for i in range(n * 2):
            schema = {'not': schema}
    elif how == 'properties':
        for i in range(n):
            schema, good, bad = {'properties': {'a': schema}, 'additionalProperties': False}, {'a': good}, {'a': bad}
    elif how == 'items':
        for i in range(n):
            schema, good, bad = {'items': schema, 'uniqueItems': True}, [good], [bad]
    elif how == 'recursive object':
        schema = {'$id': HOST + 'rec', 'properties': {'v': leaf, 'a': {'$ref': '#'}}, 'unevaluatedProperties': False}
        good, bad = {'v': 1}, {'v': 'x'}
        for i in range(n):
            good, bad = {'a': good}, {'v': 2, 'a': bad}
    elif how == 'recursive array':
        schema = {'anyOf': [leaf, {'type': 'array', 'items': {'$ref': '#'}}]}
        for i in range(n):
            good, bad = [good], [bad]
    elif how == 'references':
        schema = {'$ref': '#/$defs/0', '$defs': {**{str(i): {'$ref': f'#/$defs/{i + 1}'} for i in range(n)}, str(n): leaf}}
    elif how == 'wide':
        w = n * 10
        schema = {'properties': {str(i): leaf for i in range(w)}, 'required': [str(i) for i in range(w)], 'unevaluatedProperties': False}
        good = {str(i): i for i in range(w)}
        bad = {**good, str(w - 1): 'x'}
    elif how == 'long':
        w = n * 10
        schema = {'items': leaf, 'maxItems': w, 'contains': {'const': w - 1}}
        good, bad = list(range(w)), list(range(w - 1)) + ['x']
    with catalog().cache() as cid:
        s = JSONSchema(schema, catalog=catalog(), cacheid=cid, metaschema_uri=meta)
        expect(s.validate().valid, '{} of {}', how, n)
        expect(refjson.eq(s.value, schema), '{} of {}: value', how, n)
        for v, want in ((good, True), (bad, False)):
            r = s.evaluate(JSON(v))
            expect(r.valid is want, '{} of {} on {}', how, n, want)
            for f in FORMATS:
                expect(json.loads(json.dumps(r.output(f)))['valid'] is want, '{} of {} {} output', how, n, f)


DEEP = ['allOf', 'not', 'properties', 'items', 'recursive object', 'recursive array', 'references', 'wide', 'long']


# ------------------------------------------------------------- refusals

BAD = [{'$id': '#frag'}, {'$id': 'https://x.example/a#frag'},
       {'$ref': 'nowhere'}, {'$ref': '#nowhere'}, {'$ref': '#/nowhere'}, {'$ref': '#/$defs/nowhere/x'}, {'$ref': 'https://nowhere.example/x'}, {'$ref': 'urn:nowhere'}, {'$ref': '#/title'},
       {'$ref': '#/~2'}, {'$ref': 'https://[bad/'}, {'$ref': HOST + 'served#nowhere'}, {'$ref': HOST + 'served#/properties'}, {'$ref': HOST + 'absent'}, {'$ref': HOST + 'list'}, {'$ref': HOST + 'broken'},
       {'$ref': HOST + 'chain'}, {'$ref': 'tag:x,2020:y#/a'},
       {'$schema': 'https://nowhere.example/meta', 'title': 'x'}, {'$schema': 'relative', 'title': 'x'}, {'$schema': 'HTTPS://json-schema.org/draft/2020-12/schema', 'title': 'x'},
       {'$schema': 'https://json-schema.org/draft/2020-12/schema#/x', 'title': 'x'}, {'$schema': HOST + 'served', 'title': 'x'}, {'$schema': HOST + 'list', 'title': 'x'},
       {'$schema': 'https://json-schema.org/draft/2020-12/vocab/core', 'title': 'x'}]
BAD_NEW = [{'$dynamicRef': 'nowhere'}, {'$dynamicRef': '#nowhere'}, {'$dynamicRef': HOST + 'absent#a'}, {'$dynamicRef': '#/$defs/nowhere'}]
SERVED = {'served': {'title': 'served', 'properties': {'a': {'type': 'string'}}}, 'list': [1], 'chain': {'$ref': 'absent'}}
_source = []


def serve():
    if not _source:
        from jschon import URI
        from jschon.catalog import Source

        class Served(Source):
            def __call__(self, path):
                if path == 'broken':
                    raise RuntimeError('broken')
                return SERVED[path]

        catalog().add_uri_source(URI(HOST), Served())
        _source.append(1)


@st.composite
def refusal(draw):
    c = draw(docs.identified(depth=2, switch=False))
    d, doc = c['dialect'], json.loads(json.dumps(c['schema']))
    if c['uri'] is None and '$id' not in doc:
        c['uri'] = HOST + 'mine'
    reg = refschema.Registry()
    reg.add('doc', doc, c['uri'] or 'urn:x-none', d)
    places = [p for (_, p), n in reg.nodes.items()]
    place = draw(st.sampled_from(places))
    bad = draw(st.sampled_from(BAD + (BAD_NEW * 3 if d != '2019-09' else [])))
    return {'dialect': d, 'uri': c['uri'], 'good': doc, 'place': list(place), 'bad': bad, 'first': draw(st.booleans()),
            'others': draw(st.lists(st.sampled_from(OTHERS), max_size=3, unique_by=str)), 'instances': draw(st.lists(gs.instances('object'), min_size=1, max_size=3)),
            'earlier': draw(st.booleans()), 'through': draw(st.sampled_from(['constructor', 'constructor', 'fetch']))}


OTHERS = [{'$id': 'https://o.example/r', 'title': 'other', 'type': 'object'}, {'$id': 'https://r.example/a', '$anchor': 'a', 'properties': {'a': {'$ref': '#b'}, 'b': {'$anchor': 'b', 'type': 'string'}}},
          {'$id': 'urn:example:u', 'allOf': [{'$ref': 'https://other.example/ok'}], '$defs': {'x': {'$id': 'https://other.example/ok', 'maxProperties': 1}}},
          {'$id': 'https://r.example/d/e/f', 'properties': {'a': {'$id': 'g', 'const': 1}}}]


def spoiled(case):
    """The document with the bad keywords in one place."""
    doc = json.loads(json.dumps(case['good']))

    def put(at):
        if not isinstance(at, dict):
            return dict(case['bad'])
        rest = {k: v for k, v in at.items() if k not in case['bad']}
        return {**case['bad'], **rest} if case['first'] else {**rest, **case['bad']}

    path = case['place']
    if not path:
        return put(doc)
    parent = refpointer.evaluate(doc, path[:-1])
    k = int(path[-1]) if isinstance(parent, list) else path[-1]
    parent[k] = put(parent[k])
    return doc


@contextlib.contextmanager
def watched(cat):
    """Notes what is put into the caches of a catalog."""
    seen = []
    real = cat.add_schema

    def add_schema(uri, schema, **kwargs):
        seen.append((uri, schema))
        return real(uri, schema, **kwargs)
    cat.add_schema = add_schema
    try:
        yield seen
    finally:
        del cat.add_schema


def state(cat, cid, seen):
    return {uri: schema for uri, schema in seen if cat.has_schema(uri, schema, cacheid=cid)}


def answers(schema, instances):
    from jschon import JSON
    return [(r.valid, json.dumps(r.output('verbose'), sort_keys=True)) for r in (schema.evaluate(JSON(v)) for v in instances)]


def refused(case, note):
    from jschon import JSONSchema, URI
    from jschon.exc import JschonError
    serve()
    d, cat, meta = case['dialect'], catalog(), URI(META[case['dialect']])
    bad = spoiled(case)
    uri = URI(case['uri']) if case['uri'] else None
    note.label(json.dumps(case['bad'])[:40])
    note.nontrivial(len(case['place']) > 0)
    with cat.cache() as cid, watched(cat) as seen:
        kept = []
        for o in case['others']:
            kept.append(JSONSchema(o, catalog=cat, cacheid=cid, metaschema_uri=meta))
        if case['earlier'] and uri is not None:
            # another schema is already there under the very same URI
            kept.append(JSONSchema({'title': 'earlier', 'type': 'object'}, catalog=cat, cacheid=cid, metaschema_uri=meta, uri=uri))
        before = state(cat, cid, seen)
        said = [answers(k, case['instances']) for k in kept]
        ok = False
        try:
            if case['through'] == 'fetch' and uri is not None and not case['earlier']:
                SERVED['fetched'] = {'$id': case['uri'], **bad} if '$id' not in bad else bad
                cat.get_schema(URI(HOST + 'fetched'), cacheid=cid, metaschema_uri=meta)
            else:
                JSONSchema(bad, catalog=cat, cacheid=cid, metaschema_uri=meta, uri=uri)
            ok = True
        except JschonError:
            pass
        except Exception as e:
            raise Violation(f'{bad} is refused with {type(e).__name__}: {e}') from e
        expect(not ok, '{!r} with {!r} is not refused', bad, case['bad'])
        after = state(cat, cid, seen)
        expect(before.keys() == after.keys() and all(before[k] is after[k] for k in before), 'the refusal changed the cache: {} added, {} gone',
               sorted(map(str, after.keys() - before.keys())), sorted(map(str, before.keys() - after.keys())))
        for u, s in before.items():
            expect(cat.get_schema(u, cacheid=cid) is s, '{} no longer found', u)
        for k, s in zip(kept, said):
            expect(answers(k, case['instances']) == s, 'the refusal changed what {} says', k)
        # and the document without the fault is accepted as if nothing had happened
        fresh = URI('https://fresh.example/doc')
        if not case['others'] and not (case['earlier'] and uri is not None):
            good = JSONSchema(case['good'], catalog=cat, cacheid=cid, metaschema_uri=meta, uri=uri)
        else:
            good = JSONSchema({'title': 'fresh', 'maxProperties': 1}, catalog=cat, cacheid=cid, metaschema_uri=meta, uri=fresh)
        found = cat.get_schema(good.canonical_uri, cacheid=cid)
        expect(found is good, 'after the refusal another schema is found under {}', good.canonical_uri)
        reg = refschema.Registry()
        root = reg.add('doc', good.value, case['uri'] or 'urn:x-none', d)
        for v in case['instances']:
            try:
                want = refschema.Evaluator(reg, limit=MAX_STEPS).run(root, v).valid
            except Exception:
                continue
            expect(good.evaluate(__import__('jschon').JSON(v)).valid is want, '{} on {!r}', good, v)


CHECKS = [
    Check('odd', odd, total, 2400,
          rule='schemas of extreme but valid values, odd names and patterns, booleans everywhere; non-trivial when constructed with more than one keyword'),
    Check('mutated', mutated, total, 1600,
          rule='generated documents with up to two mutations that the metaschema still accepts; non-trivial when constructed with more than one keyword'),
    Check('deep', lambda: st.fixed_dictionaries({'dialect': st.sampled_from(DIALECTS), 'how': st.sampled_from(DEEP), 'n': st.integers(1, 30)}), deep, 240,
          rule='nesting of schema and instance up to 30 levels, widths up to 300; non-trivial beyond 5'),
    Check('refusals', refusal, refused, 2400,
          rule='documents with one identifier, reference or dialect that cannot be resolved, next to other cached schemas; non-trivial when it is below the root'),
]
ASSUMPTIONS = ['references that never descend into the instance (infinite loops) are out of domain', 'strings are Unicode: no lone surrogates', 'integers have at most 4300 digits',
               'patterns are ones that Python compiles']
