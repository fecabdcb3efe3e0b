"""C29: metaschemas with every selection of vocabularies, and custom keywords."""
import itertools
import json
from collections import Counter

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refpointer, refschema
from . import c22
from .c26 import agree
from .common import Check, expect
from .schemas import DIALECTS, UNSPECIFIED, annotation, tokens

V = 'https://json-schema.org/draft/%s/vocab/%s'
HERE = 'https://vocab.example/'
MAX_STEPS = 2500

VALIDATION = set(gs.ASSERTIONS) | {'maxContains', 'minContains'}
METADATA = set(gs.META)
CONTENT = set(gs.CONTENT)
UNEVALUATED = set(gs.UNEVALUATED)
APPLICATOR = {'allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'items', 'contains', 'properties', 'patternProperties', 'additionalProperties', 'propertyNames'}
CORE = {'$schema', '$vocabulary', '$id', '$ref', '$anchor', '$defs', '$comment'}
KEYWORDS = {
    '2019-09': {'applicator': APPLICATOR | UNEVALUATED | {'additionalItems'}, 'validation': VALIDATION, 'format': {'format'}, 'meta-data': METADATA, 'content': CONTENT},
    '2020-12': {'applicator': APPLICATOR | {'prefixItems'}, 'unevaluated': UNEVALUATED, 'validation': VALIDATION, 'format-annotation': {'format'}, 'meta-data': METADATA, 'content': CONTENT},
}
KEYWORDS['next'] = KEYWORDS['2020-12']
CORES = {'2019-09': CORE | {'$recursiveRef', '$recursiveAnchor'}, '2020-12': CORE | {'$dynamicRef', '$dynamicAnchor'}, 'next': CORE | {'$dynamicRef', '$dynamicAnchor'}}

_catalog = None
_served = {}
_counter = itertools.count()


def catalog():
    """A catalog for this module alone: vocabularies and metaschemas stay in it."""
    global _catalog
    if _catalog is None:
        from jschon import URI, create_catalog
        from jschon.catalog import Source

        class Served(Source):
            def __call__(self, relative_path):
                return _served[relative_path]

        _catalog = create_catalog(*DIALECTS, name='pbt-vocabularies')
        _catalog.add_uri_source(URI(HERE), Served())
        for d in DIALECTS:
            standard = _catalog.get_vocabulary(URI(V % (d, 'core')))
            _catalog.create_vocabulary(URI(HERE + 'core-' + d), *standard.kwclasses.values())
    return _catalog


# ------------------------------------------------------------- the model

def masked(schema, d, known, mark='x-masked-'):
    """The document with every keyword that is not known renamed to one that no dialect knows."""
    if not isinstance(schema, dict):
        return schema
    out = {}
    for k, v in schema.items():
        if k not in known:
            out[mark + k] = v
            continue
        subs = dict(refschema.children({k: v}, d))
        if not subs:
            out[k] = v
        elif (k,) in subs:
            out[k] = masked(v, d, known)
        elif isinstance(v, list):
            out[k] = [masked(x, d, known) for x in v]
        else:
            out[k] = {n: masked(x, d, known) for n, x in v.items()}
    return out


def expected(doc, d, known, instance):
    """Verdict and annotations."""
    reg = refschema.Registry()
    root = reg.add('doc', masked(doc, d, known), HERE + 'schema', d)
    out = refschema.Evaluator(reg, limit=MAX_STEPS).run(root, instance)
    notes = Counter()
    for iloc, kpath, k, v in out.notes:
        kpath = tuple(x[len('x-masked-'):] if x.startswith('x-masked-') else x for x in kpath)
        name = kpath[-1] if k.startswith('x-masked-') else k
        # annotations of unknown keywords are compared as they are, those of known ones as sets of names
        if v is not None and (name not in UNSPECIFIED[d] or name != k):
            notes[iloc, kpath, plainly(name, v, name == k)] += 1
    return out.valid, notes


def plainly(name, v, known):
    from .schemas import tagged
    return annotation(name, v) if known else tagged(v)


def compare(what, schema, doc, d, known, instance, note):
    from jschon import JSON
    try:
        valid, notes = expected(doc, d, known, instance)
    except (RuntimeError, RecursionError):
        note.label('too large')
        return
    result = schema.evaluate(JSON(instance))
    expect(result.valid is valid, '{}: {} on {!r} is {}, not {}', what, doc, instance, result.valid, valid)
    note.label('valid' if valid else 'invalid')
    if valid:
        got = Counter()
        for u in result.output('basic')['annotations']:
            k = tokens(u['keywordLocation'])
            if k[-1] not in UNSPECIFIED[d] or k[-1] not in known:
                got[tokens(u['instanceLocation']), k, plainly(k[-1], u['annotation'], k[-1] in known)] += 1
        agree(f'{what}: {doc} on {instance!r}', got, notes)
    return valid


# ------------------------------------------------------------- selections

ALL = {'assert': 4, 'meta': 1, 'unknown': 1, 'inplace': 3, 'object': 3, 'array': 3, 'unevaluated': 3, 'format': 1, 'content': 1, 'ref': 1}


@st.composite
def selections(draw):
    d = draw(st.sampled_from(DIALECTS))
    vocab = {}
    bare = draw(st.integers(0, 5)) == 0         # a metaschema of the core vocabulary alone
    for name in KEYWORDS[d]:
        flag = None if bare else draw(st.sampled_from([True, True, False, None, None]))
        if flag is not None:
            vocab[V % (d, name)] = flag
    core = draw(st.sampled_from([True] * 8 + [False, None, 'two', 'unknown version', 'own', 'own']))
    unknown = draw(st.sampled_from([None, None, None, False, False, True]))
    entries = list(vocab.items())
    if core is True or core is False:
        entries.append((V % (d, 'core'), core))
    elif core == 'two':
        entries += [(V % (x, 'core'), True) for x in draw(st.permutations(DIALECTS))[:2]]
    elif core == 'unknown version':
        entries.append((V % ('2099-01', 'core'), True))
    elif core == 'own':
        # a core vocabulary by another name
        entries.append((HERE + 'core-' + d, draw(st.sampled_from([True, True, True, False]))))
    if unknown is not None:
        entries.append((draw(st.sampled_from(strangers(d))), unknown))
    vocabulary = dict(draw(st.permutations(entries))) if draw(st.integers(0, 9)) else None
    defaults = draw(st.lists(st.sampled_from(sorted(KEYWORDS[d])), max_size=4, unique=True)) if vocabulary is None or bare or draw(st.integers(0, 3)) == 0 else []
    doc = draw(gs.document(gs.Ctx(d, ALL, refs=1, keys=gs.simple_key), must=draw(st.sampled_from(['inplace', 'object', 'array', 'unevaluated']))))
    if draw(st.integers(0, 5)) == 0:
        doc['$vocabulary'] = {V % (d, 'core'): False, 'https://unknown.example/vocab': True}
    return {'dialect': d, 'vocabulary': vocabulary, 'default core': draw(st.booleans()) if vocabulary is None or bare or core in (None, 'own', True) else False, 'defaults': defaults,
            'schema': doc, 'instances': draw(st.lists(gs.instances(draw(st.sampled_from([None, 'object', 'array']))), min_size=2, max_size=4)),
            'how': draw(st.sampled_from(['create', 'load', 'class'])), 'place': draw(st.sampled_from(['first', 'last', 'argument']))}


def strangers(d):
    """Vocabularies that no catalog knows; most of them look like a core vocabulary."""
    core = V % (d, 'core')
    return ['https://unknown.example/vocab', core + '-x', core + '/x', core + '#', core.replace('https', 'http'), core.replace('.org', '.org:443'), 'https://example.org/' + core,
            core.replace('/vocab', '/x/vocab'), core.replace('json-schema', 'json_schema'), 'https://unknown.example/vocab/core', core.replace('-', 'x', 1), core + '?', 'urn:example:vocab', 'tag:example.org,2020:vocab/core', 'x:core', 'file:///vocab/core']


def metaschema(case, n, cat):
    """The metaschema document, by one of the ways to create metaschemas."""
    from jschon import URI
    from jschon.vocabulary import Metaschema
    d = case['dialect']
    uri = f'{HERE}meta{n}'
    doc = {'$schema': refschema.META[d], '$id': uri, 'type': ['object', 'boolean']}
    if case['vocabulary'] is not None:
        doc['$vocabulary'] = case['vocabulary']
    _served[f'meta{n}'] = doc
    core = None
    if case['default core']:
        core = URI(HERE + 'core-' + d if any(v.startswith(HERE) for v in case['vocabulary'] or ()) else V % (d, 'core'))
    defaults = [URI(V % (d, x)) for x in case['defaults']] if core else []
    if case['how'] == 'class':
        return Metaschema(cat, doc, cat.get_vocabulary(core) if core else None, *map(cat.get_vocabulary, defaults), uri=URI(uri))
    if case['how'] == 'create' or core:
        return cat.create_metaschema(URI(uri), core, *defaults)
    return cat.get_metaschema(URI(uri))


def acceptable(case):
    """Whether the metaschema must be accepted."""
    d, vocabulary = case['dialect'], case['vocabulary']
    if vocabulary is None:
        return case['default core']
    own = HERE + 'core-' + d
    if own in vocabulary:
        return case['default core'] and vocabulary[own] is True and not any(vocabulary.get(v) for v in strangers(d))
    cores = [v for v in vocabulary if v.endswith('/vocab/core') and v not in strangers(d)]
    if len(cores) != 1 or vocabulary[cores[0]] is not True or '2099' in cores[0]:
        return False
    return not any(vocabulary.get(v) for v in strangers(d))


def selected(case, note):
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError, JSONSchemaError
    cat = catalog()
    d, doc = case['dialect'], case['schema']
    n = next(_counter)
    uri = URI(f'{HERE}meta{n}')
    what = f'{case["how"]} {d} {case["vocabulary"]} default {case["defaults"] if case["default core"] else None}'
    ok = acceptable(case)
    note.label('accepted' if ok else 'refused', case['how'])
    if not ok:
        note.nontrivial()
        for _ in range(2):
            try:
                metaschema(case, n, cat)
            except (JSONSchemaError, CatalogError):
                pass
            else:
                expect(False, '{} was accepted', what)
        # nothing of it stays
        with cat.cache() as cid:
            if case['vocabulary'] is not None or case['how'] != 'class':
                try:
                    JSONSchema({'$schema': str(uri), 'type': 'string'}, catalog=cat, cacheid=cid)
                except (JSONSchemaError, CatalogError):
                    pass
                else:
                    expect(False, '{}: a schema of the refused metaschema was accepted', what)
        return
    meta = metaschema(case, n, cat)
    expect(cat.get_metaschema(uri) is meta, '{}: another metaschema is found', what)
    names = [v.rsplit('/', 1)[1] for v in case['vocabulary'] if v.startswith(V % (d, '')) and v not in strangers(d)] if case['vocabulary'] is not None else list(case['defaults'])
    known = set(CORES[d]).union(*(KEYWORDS[d][x] for x in names if x != 'core'))
    everything = set(CORES[d]).union(*KEYWORDS[d].values())
    note.nontrivial(any(k not in known for k in doc if k in everything))
    note.label('vocabularies:%d' % len(names))
    with cat.cache() as cid, cat.cache() as other:
        whole = {'$schema': str(uri), **doc} if case['place'] == 'first' else {**doc, '$schema': str(uri)} if case['place'] == 'last' else doc
        kw = {'metaschema_uri': uri} if case['place'] == 'argument' else {}
        schema = JSONSchema(whole, catalog=cat, cacheid=cid, **kw)
        standard = JSONSchema(doc, catalog=cat, cacheid=other, metaschema_uri=URI(refschema.META[d]))
        expect(schema.metaschema is meta, '{}: the schema has another metaschema', what)
        for v in case['instances']:
            compare(what, schema, doc, d, known, v, note)
            # the dialect itself is as it was
            compare('the standard metaschema', standard, doc, d, everything, v, note)


# ------------------------------------------------------------- custom keywords

@st.composite
def customs(draw):
    d = draw(st.sampled_from(DIALECTS))
    name = draw(st.sampled_from(['limit', 'x-limit', 'title', 'größe', '', 'a/b', 'maxLength', 'Limit', 'properties2', 'definitions']))
    types = draw(st.sampled_from([['string'], ['array'], ['object'], ['string', 'array', 'object'], ['number'], ['null', 'boolean', 'number', 'string', 'array', 'object']]))
    alias = draw(st.sampled_from([None, 'allOf', 'anyOf', 'not', 'properties', 'items', 'additionalProperties', 'oneOf', 'patternProperties', 'dependentSchemas']))
    doc = draw(gs.document(gs.Ctx(d, {'assert': 2, 'inplace': 3, 'object': 3, 'array': 2}, refs=0), must='inplace'))
    # the custom keyword, at some schemas of the document
    doc = json.loads(json.dumps(doc))
    reg = refschema.Registry()
    reg.add('doc', doc, HERE + 'x', d)
    for node in list(reg.nodes.values()):
        if isinstance(node.value, dict) and draw(st.booleans()):
            node.value[name] = draw(st.integers(0, 3))
    return {'dialect': d, 'name': name, 'types': types, 'alias': alias, 'schema': doc, 'required': draw(st.booleans()),
            'instances': draw(st.lists(gs.instances(), min_size=2, max_size=4)), 'late': draw(st.booleans())}


def measure(v):
    t = refjson.typeof(v)
    return v if t == 'number' else len(v) if t in ('string', 'array', 'object') else 1


class Custom(refschema.Evaluator):
    """The reference, with one more assertion keyword."""
    name = types = None

    def apply(self, node, v, iloc, kpath, scope):
        out = super().apply(node, v, iloc, kpath, scope)
        if isinstance(node.value, dict) and self.name in node.value and refjson.typeof(v) in self.types and measure(v) > node.value[self.name]:
            out.valid, out.props, out.items, out.notes = False, set(), set(), []
        return out


def renamed(schema, d, old, new):
    """The document with one keyword renamed wherever it is a keyword."""
    if not isinstance(schema, dict):
        return schema
    out = {}
    for k, v in schema.items():
        subs = dict(refschema.children({k: v}, d))
        if (k,) in subs:
            v = renamed(v, d, old, new)
        elif subs and isinstance(v, list):
            v = [renamed(x, d, old, new) for x in v]
        elif subs:
            v = {n: renamed(x, d, old, new) for n, x in v.items()}
        out[new if k == old else k] = v
    return out


def custom(case, note):
    from jschon import JSON, JSONSchema, URI
    from jschon.vocabulary import Keyword, Metaschema
    cat = catalog()
    d, name = case['dialect'], case['name']
    n = next(_counter)
    uri, vocab = URI(f'{HERE}meta{n}'), URI(f'{HERE}vocab{n}')
    limits = case['types']

    class LimitKeyword(Keyword):
        key = name
        instance_types = tuple(limits)

        def evaluate(self, instance, result):
            if measure(instance.value) > self.json.value:
                result.fail('beyond the limit')

    classes = [LimitKeyword]
    doc, alias = case['schema'], case['alias']
    base = cat.get_metaschema(URI(refschema.META[d]))
    if alias:
        # a standard keyword under a name of our own
        standard = base.get_kwclass(alias)
        classes.append(type('Alias', (standard,), {'key': 'our' + alias}))
    vocabulary = {V % (d, x): True for x in ['core', *KEYWORDS[d]]}
    vocabulary[str(vocab)] = case['required']
    _served[f'meta{n}'] = {'$schema': refschema.META[d], '$id': str(uri), '$vocabulary': vocabulary}
    written = renamed(doc, d, alias, 'our' + alias) if alias else doc
    if alias in ('properties', 'items'):
        # additionalProperties and additionalItems know only the standard names
        written = doc
    with cat.cache() as cid, cat.cache() as cid2:
        plain = JSONSchema(written, catalog=cat, cacheid=cid2, metaschema_uri=URI(refschema.META[d]))
        cat.create_vocabulary(vocab, *classes)
        schema = JSONSchema(written, catalog=cat, cacheid=cid, metaschema_uri=uri)
        reg = refschema.Registry()
        root = reg.add('doc', doc, HERE + 'x', d)
        everything = set(CORES[d]).union(*KEYWORDS[d].values())
        for v in case['instances']:
            ev = Custom(reg, limit=MAX_STEPS)
            ev.name, ev.types = name, case['types']
            try:
                want = ev.run(root, v).valid
            except (RuntimeError, RecursionError):
                note.label('too large')
                continue
            if name in everything and name == 'maxLength':
                # two classes for one name: the last vocabulary declared gives the meaning
                reg2 = refschema.Registry()
                ev2 = Custom(reg2, limit=MAX_STEPS)
                hidden = json.loads(json.dumps(doc))
                hidden = renamed(hidden, d, 'maxLength', 'hidden-limit')
                ev2.name, ev2.types = 'hidden-limit', case['types']
                want = ev2.run(reg2.add('doc', hidden, HERE + 'x', d), v).valid
            got = schema.evaluate(JSON(v)).valid
            expect(got is want, '{} with {!r} for {}: {} on {!r} is {}, not {}', d, name, case['types'], written, v, got, want)
            note.label('valid' if want else 'invalid')
            standard = compare('without the vocabulary', plain, written, d, everything, v, note)
            note.nontrivial(standard is not None and standard != want)


# ------------------------------------------------------------- unknown keywords

@st.composite
def unknowns(draw):
    d = draw(st.sampled_from(DIALECTS))
    name = st.one_of(st.text(max_size=6), st.sampled_from(['foo', '', 'Type', 'allof', ' type', 'type ', '$Ref', '__init__', 'key', 'self', 'a b', '1', 'dependencies', 'definitions', 'id', 'exclusive', 'extends',
                                                           'class', '\n', '\x00', '$dynamicRef' if d == '2019-09' else '$recursiveRef', 'prefixItems' if d == '2019-09' else 'additionalItems']))
    doc = draw(gs.schema(gs.Ctx(d, {'assert': 2, 'inplace': 2, 'object': 1, 'array': 1, 'unevaluated': 1}, depth=2), allow_bool=False))
    doc = json.loads(json.dumps(doc))
    reg = refschema.Registry()
    reg.add('doc', doc, HERE + 'x', d)
    known = set(CORES[d]).union(*KEYWORDS[d].values())
    value = st.one_of(gs.small_instance, st.sampled_from([False, {'not': {}}, [False], {'a': False}, {'$id': '#bad'}, {'$ref': '#/nowhere'}, {'type': 'nothing'}, '#/nowhere']))
    for node in list(reg.nodes.values()):
        if isinstance(node.value, dict):
            for _ in range(draw(st.integers(0, 2))):
                k = draw(name)
                if k not in known:
                    node.value[k] = draw(value)
    return {'dialect': d, 'schema': doc, 'instances': draw(st.lists(gs.instances(), min_size=1, max_size=3))}


def unknown(case, note):
    from jschon import JSONSchema, URI
    cat = catalog()
    d, doc = case['dialect'], case['schema']
    known = set(CORES[d]).union(*KEYWORDS[d].values())
    note.nontrivial(json.dumps(masked(doc, d, known)) != json.dumps(doc))
    with cat.cache() as cid:
        schema = JSONSchema(doc, catalog=cat, cacheid=cid, metaschema_uri=URI(refschema.META[d]))
        for v in case['instances']:
            compare('unknown keywords', schema, doc, d, known, v, note)


# ------------------------------------------------------------- vocabularies of some of the standard keywords

@st.composite
def subsets(draw):
    d = draw(st.sampled_from(DIALECTS))
    everything = sorted(set().union(*KEYWORDS[d].values()))
    families = [['properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties'], ['items', 'prefixItems', 'additionalItems', 'unevaluatedItems', 'contains'],
                ['if', 'then', 'else'], ['contains', 'minContains', 'maxContains'], ['contentMediaType', 'contentEncoding', 'contentSchema']]
    family = [k for k in draw(st.sampled_from(families + families[:2] + families[1:2])) if k in everything]
    left_out = set(draw(st.lists(st.sampled_from(family), min_size=1, max_size=2)))
    left_out |= set(draw(st.lists(st.sampled_from(everything), max_size=3)))
    group = draw(st.sampled_from(['object', 'array', 'inplace']))
    doc = json.loads(json.dumps(draw(gs.document(gs.Ctx(d, ALL, refs=1, keys=gs.simple_key), must=group)))) if draw(st.booleans()) else {}
    # all of the family somewhere
    where = draw(st.sampled_from([n for n in (doc, doc.get('not'), *(doc.get('allOf') or ())) if isinstance(n, dict)]))
    leaf = st.sampled_from([True, True, True, False, {}, {'title': 't'}, {'type': 'integer'}, {'const': 1}])
    for k in draw(st.permutations(family)):
        if draw(st.integers(0, 3)):
            where.pop(k, None)
            where[k] = ({'a': draw(leaf), 'b': draw(leaf)} if k == 'properties' else {'^b': draw(leaf)} if k == 'patternProperties'
                        else [draw(leaf)] if k == 'prefixItems' or k == 'items' and d == '2019-09' and draw(st.booleans())
                        else draw(st.integers(0, 2)) if k in ('minContains', 'maxContains') else 'text/plain' if k in ('contentMediaType', 'contentEncoding') else draw(leaf))
    # what is not understood may have any value, such as those that annotations have
    for k in sorted(left_out & set(where)):
        if k not in ('$defs', 'definitions') and draw(st.booleans()):
            where[k] = draw(st.sampled_from([0, 0, 1, True, True, [0, 1], [1]] if 'tems' in k else [[0, 1], [1], ['a', 'b'], ['a', 'b', 'c'], 0, True, [], 'ab', {'a': True}]))
    kind = draw(st.sampled_from([None, 'array' if 'items' in family else 'object', 'array' if 'items' in family else 'object', 'array', 'object']))
    return {'dialect': d, 'left out': sorted(left_out), 'schema': doc, 'instances': draw(st.lists(gs.instances(kind), min_size=2, max_size=5)),
            'split': draw(st.integers(1, 3))}


def subset(case, note):
    from jschon import JSONSchema, URI
    cat = catalog()
    d, doc = case['dialect'], case['schema']
    n = next(_counter)
    base = cat.get_metaschema(URI(refschema.META[d]))
    everything = set().union(*KEYWORDS[d].values())
    names = sorted(everything - set(case['left out']))
    vocabulary = {V % (d, 'core'): True}
    for k in range(case['split']):
        vocab = f'{HERE}subset{n}-{k}'
        cat.create_vocabulary(URI(vocab), *(base.get_kwclass(x) for x in names[k::case['split']]))
        vocabulary[vocab] = True
    uri = f'{HERE}meta{n}'
    _served[f'meta{n}'] = {'$schema': refschema.META[d], '$id': uri, '$vocabulary': vocabulary}
    known = set(CORES[d]) | set(names)
    note.nontrivial(any(k in case['left out'] for _, v in refjson.walk(doc) if isinstance(v, dict) for k in v))
    with cat.cache() as cid:
        schema = JSONSchema(doc, catalog=cat, cacheid=cid, metaschema_uri=URI(uri))
        for v in case['instances']:
            compare(f'without {case["left out"]}', schema, doc, d, known, v, note)


# ------------------------------------------------------------- resources of other metaschemas inside

@st.composite
def mixtures(draw):
    """A resource whose metaschema leaves out vocabularies, inside one that counts what is evaluated."""
    d = draw(st.sampled_from(DIALECTS))
    child = draw(st.sampled_from(['object', 'array']))
    leaves = draw(st.sampled_from([c22.LENIENT, c22.LENIENT, c22.LEAF]))
    inner = c22.branch(draw, d, child, draw(st.integers(0, 2)), 1, leaves)
    if draw(st.booleans()):
        inner['unevaluatedProperties' if child == 'object' else 'unevaluatedItems'] = draw(st.sampled_from([True, {'title': 'in'}, {}]))
    if draw(st.booleans()):
        inner['title'] = 'inner'
    outer = c22.branch(draw, d, child, draw(st.integers(0, 1)), 1, leaves)
    hole = {'$comment': 'HOLE'}
    how = draw(st.sampled_from(['allOf', 'allOf', 'anyOf', 'ref', 'if', 'nested']))
    if how in ('allOf', 'anyOf'):
        outer[how] = [hole] + outer.get(how, [])
    elif how == 'ref':
        outer['$ref'] = '#/$defs/inner'
        outer['$defs'] = {'inner': hole}
    elif how == 'if':
        outer['if'] = hole
    else:
        outer['allOf'] = [{'anyOf': [hole]}]
    extra = ['unevaluatedProperties', 'additionalProperties'] if child == 'object' else ['unevaluatedItems', 'additionalItems' if d == '2019-09' else 'items']
    outer[draw(st.sampled_from(extra[:1] * 3 + extra))] = draw(st.sampled_from([False, {'title': 'u'}, {'title': 'u'}, {'type': 'integer'}]))
    if draw(st.booleans()):
        outer = {k: outer[k] for k in draw(st.permutations(list(outer)))}
    groups = sorted(KEYWORDS[d])
    drop = draw(st.sets(st.sampled_from([g for g in groups if g in ('applicator', 'unevaluated')] * 3 + groups), min_size=1, max_size=4))
    if child == 'object':
        inst = st.dictionaries(gs.simple_key, st.sampled_from([1, 2, 'a', None, {'a': 1}]), max_size=4)
    else:
        inst = st.lists(st.sampled_from([1, 2, 'a', None, [1], [1, 'a']]), max_size=5)
    return {'dialect': d, 'outer': json.loads(json.dumps(outer)), 'inner': json.loads(json.dumps(inner)), 'kept': [g for g in groups if g not in drop],
            'place': draw(st.sampled_from(['first', 'last'])), 'instances': draw(st.lists(inst, min_size=2, max_size=5))}


def filled(schema, inner):
    if isinstance(schema, dict):
        return inner if schema.get('$comment') == 'HOLE' else {k: filled(v, inner) for k, v in schema.items()}
    return [filled(v, inner) for v in schema] if isinstance(schema, list) else schema


def mixed(case, note):
    from jschon import JSON, JSONSchema, URI
    cat = catalog()
    d = case['dialect']
    n = next(_counter)
    uri, name = f'{HERE}meta{n}', f'{HERE}inner{n}'
    _served[f'meta{n}'] = {'$schema': refschema.META[d], '$id': uri, '$vocabulary': {V % (d, x): True for x in ['core', *case['kept']]}}
    everything = set(CORES[d]).union(*KEYWORDS[d].values())
    known = set(CORES[d]).union(*(KEYWORDS[d][x] for x in case['kept']))
    identity = {'$schema': uri, '$id': name}
    doc = filled(case['outer'], {**identity, **case['inner']} if case['place'] == 'first' else {**case['inner'], **identity})
    hidden = {k: v for k, v in case['inner'].items() if k not in known}
    model = filled(case['outer'], {'$id': name, **masked(case['inner'], d, known)})
    full = filled(case['outer'], {'$id': name, **case['inner']})
    note.label(*case['kept'])
    with cat.cache() as cid:
        schema = JSONSchema(doc, catalog=cat, cacheid=cid, uri=URI(f'{HERE}outer{n}'), metaschema_uri=URI(refschema.META[d]))
        for v in case['instances']:
            outs = []
            for m in (model, full):
                reg = refschema.Registry()
                outs.append(refschema.Evaluator(reg, limit=MAX_STEPS).run(reg.add('doc', m, f'{HERE}outer{n}', d), v))
            want = outs[0]
            result = schema.evaluate(JSON(v))
            what = f'{doc} on {v!r} with only {case["kept"]} inside'
            expect(result.valid is want.valid, '{}: {}', what, result.valid)
            note.label('valid' if want.valid else 'invalid')
            note.nontrivial(bool(hidden) and (outs[1].valid is not want.valid or len(outs[1].notes) != len(want.notes)))
            if want.valid:
                wanted, got = Counter(), Counter()
                for iloc, kpath, k, value in want.notes:
                    plain = k.removeprefix('x-masked-')
                    if value is not None and plain not in UNSPECIFIED[d]:
                        wanted[iloc, tuple(x.removeprefix('x-masked-') for x in kpath), annotation(plain, value)] += 1
                for u in result.output('basic')['annotations']:
                    k = tokens(u['keywordLocation'])
                    if k[-1] not in UNSPECIFIED[d] and u['annotation'] is not None:
                        got[tokens(u['instanceLocation']), k, annotation(k[-1], u['annotation'])] += 1
                agree(what, got, wanted)


CHECKS = [
    Check('selections', selections, selected, 3200,
          rule='metaschemas with any selection of the vocabularies, required or optional, with unknown ones and core missing, not required, doubled or by default, created in three ways; '
               'non-trivial when refused, or when the schema uses a keyword left out'),
    Check('custom keywords', customs, custom, 1600,
          rule='a custom assertion keyword and a renamed standard one, in a vocabulary of a metaschema; non-trivial when the verdict differs from that without the vocabulary'),
    Check('unknown keywords', unknowns, unknown, 1600,
          rule='keywords of any name that no vocabulary knows, with values of any kind, anywhere in a schema; non-trivial when there is one'),
    Check('mixtures', mixtures, mixed, 1600,
          rule='a resource of a metaschema that leaves out vocabularies inside a schema of a full one that counts what has been evaluated; non-trivial when the words left out would make a difference'),
    Check('subsets', subsets, subset, 3000,
          rule='vocabularies of the standard keyword classes without one to five of them; non-trivial when the schema has a member by such a name'),
]
