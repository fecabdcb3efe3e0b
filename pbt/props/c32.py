"""C32: the result tree: links, places, verdicts, filters, and results of a custom class."""
import copy

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refpointer, refschema
from .c27 import MAX_STEPS, ROOT, Trace, alike, cases as documents, nested
from .common import Check, expect, node_at
from .schemas import built, tagged, tokens

LEFT = {'additionalItems', 'unevaluatedItems', 'additionalProperties', 'unevaluatedProperties', 'items', 'then', 'else'}
REFS = ('$ref', '$dynamicRef', '$recursiveRef')


def walk(result):
    yield result
    for c in result.children.values():
        yield from walk(c)


def path_of(pointer):
    return tokens(str(pointer))


def same_list(got, want):
    """Equal as bags of JSON values."""
    return sorted(map(repr, map(tagged, got))) == sorted(map(repr, map(tagged, want)))


def gathered(node, valid, attr, instance, key):
    """The annotations, or errors, that the filters leave, along nodes of the same verdict."""
    if node.valid is not valid:
        return []
    out = []
    value = getattr(node, attr)
    if value is not None and (key is None or node.key == key) and (instance is None or path_of(instance.path) == path_of(node.instance.path)):
        out.append(value)
    for c in node.children.values():
        out += gathered(c, valid, attr, instance, key)
    return out


@st.composite
def trees(draw, weights, must, kinds):
    case = draw(documents(weights, must, kinds)())
    case['probe'] = draw(st.lists(st.tuples(st.integers(0, 400), st.integers(0, 40), st.sampled_from(
        ['title', 'properties', 'items', 'type', 'const', 'minimum', 'allOf', 'if', '$ref', 'maxLength', 'required', '0', 'a'])), min_size=3, max_size=8).map(lambda x: [list(t) for t in x]))
    case['custom'] = draw(st.sampled_from(['no', 'no', 'root', 'root']))
    return case


@st.composite
def twins(draw):
    case = draw(trees({'assert': 1}, 'assert', None))
    return {**case, **draw(alike())}


def tree(case, note):
    from jschon import JSON, JSONPointer, Result, URI
    d, doc = case['dialect'], case['schema']
    reg = refschema.Registry()
    root = reg.add('doc', doc, ROOT, d)

    class Mine(Result):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.mark = (self.parent.mark if self.parent is not None else 0) + 1

    with built(doc, d, uri=URI(ROOT)) as schema:
        for v in case['instances']:
            instance, prefix = nested(v, case['within'])
            whole = instance
            while whole.parent is not None:
                whole = whole.parent
            trace = Trace(reg, limit=MAX_STEPS)
            try:
                want = trace.run(root, v, prefix)
            except RuntimeError:
                note.label('too large')
                continue
            what = f'{d}: {doc} on {v!r}'
            if case['custom'] == 'root':
                given = Mine(schema, instance)
                result = schema.evaluate(instance, given)
                expect(result is given, '{}: another result than the one given', what)
            else:
                result = schema.evaluate(instance)
            expect(result.valid is want.valid and result.passed is want.valid, '{}: {}, {}', what, result.valid, result.passed)
            expect(result.parent is None and result.key is None and result.schema is schema and result.instance is instance, '{}: the root', what)
            expect(path_of(result.path) == () and path_of(result.relpath) == (), '{}: root paths {} {}', what, result.path, result.relpath)
            nodes = list(walk(result))
            note.nontrivial(len(nodes) > 5 and any(n.key in REFS for n in nodes) or case['custom'] != 'no' and len(nodes) > 5)
            note.label('valid' if want.valid else 'invalid', 'nodes:%d' % min(40, len(nodes) // 10 * 10))
            shared = result.globals
            expect(len(shared) == 0, '{}: globals of another evaluation: {}', what, shared)
            shared['x'] = 1
            for n in nodes:
                where = f'{what}: node {n.path} for {n.instance.path}'
                expect(type(n) is type(result), '{}: is a {}', where, type(n))
                if case['custom'] == 'root':
                    expect(n.mark == len(path_of(n.path)) + 1, '{}: mark {}', where, n.mark)
                expect(n.globals is shared, '{}: other globals', where)
                for (key, ipath), c in n.children.items():
                    expect(c.parent is n and c.key == key and c.instance.path == ipath, '{}: child {} {}', where, key, ipath)
                    expect(path_of(c.path) == path_of(n.path) + (key,), '{}: child path {}', where, c.path)
                    expect(n.children[key, JSONPointer(str(ipath))] is c, '{}: child not found by {}', where, ipath)
                # the places of instance and schema
                ipath = path_of(n.instance.path)
                kpath = path_of(n.path)
                if 'propertyNames' not in kpath:
                    expect(node_at(whole, ipath) is n.instance, '{}: the instance is not the node there', where)
                at = len(kpath)
                while kpath[:at] not in trace.target:
                    at -= 1
                if not (LEFT & set(kpath) and any(k in REFS for k in kpath[at:])):
                    target, rest = trace.target[kpath[:at]], kpath[at:]
                    value = target.value
                    if at == len(kpath) and kpath and kpath[-1] in REFS:
                        # the reference itself, in the schema that holds it
                        expect(n.schema_node.value == n.schema.value[kpath[-1]] and n.key == kpath[-1], '{}: schema node {}', where, n.schema_node)
                    else:
                        expect(refjson.same(n.schema_node.value, refpointer.evaluate(value, rest)), '{}: schema node {} is not {} of {}', where, n.schema_node, rest, value)
                relative = n.schema
                for k in path_of(n.relpath):
                    relative = node_at(relative, [k])
                expect(relative is n.schema_node, '{}: relpath {}', where, n.relpath)
                # keywords that have no part in it leave no trace
                own = path_of(n.relpath)
                if own in (('then',), ('else',)):
                    if_ = n.sibling(n.instance, 'if')
                    expect(if_ is not None and if_.valid is (own[0] == 'then'), '{}: has a result', where)
                if own == ('if',):
                    for key, when in (('then', True), ('else', False)):
                        expect((n.sibling(n.instance, key) is not None) is (key in n.schema.value and n.valid is when), '{}: {} beside {}', where, key, n.valid)
                if own == ('contentSchema',):
                    expect(n.sibling(n.instance, 'contentMediaType') is not None, '{}: has a result', where)
                if own == ('additionalItems',) and d == '2019-09':
                    expect(isinstance(n.schema.value.get('items'), list), '{}: has a result', where)
                # the verdict
                if path_of(n.relpath) == ('if',):
                    expect(n.passed is True, '{}: does not pass', where)
                else:
                    expect(n.passed is n.valid, '{}: {} but passed is {}', where, n.valid, n.passed)
                expect(n.error is None or not n.valid, '{}: {} with error {}', where, n.valid, n.error)
                if not n.valid:
                    expect(n.error is not None or any(not c.valid for c in n.children.values()), '{}: invalid without an error or an invalid child', where)
                for other in ('if', 'properties', 'type', '$ref', 'items', '0'):
                    found = n.sibling(n.instance, other)
                    expected = None
                    if n.parent is not None:
                        for (key, ip), c in n.parent.children.items():
                            if key == other and path_of(ip) == ipath:
                                expected = c
                    expect(found is expected, '{}: sibling {}: {}', where, other, found)
            # filters
            places = [p for p, _ in refjson.walk(v)]
            for i, j, key in case['probe']:
                n = nodes[i % len(nodes)]
                at = node_at(instance, places[j % len(places)])
                for inst, k in ((None, None), (at, None), (None, key), (at, key), (n.instance, key), (n.instance, n.key)):
                    for collect, valid, attr in ((n.collect_annotations, True, 'annotation'), (n.collect_errors, False, 'error')):
                        got = list(collect(inst, k))
                        expected = gathered(n, valid, attr, inst, k)
                        expect(same_list(got, expected), '{}: {} of {} by {} and {}: {}, not {}', what, attr, n.path, inst and inst.path, k, got, expected)


# ------------------------------------------------------------- a result class set by a keyword

_counter = [0]


@st.composite
def marked(draw):
    d = draw(st.sampled_from(['2019-09', '2020-12', 'next']))
    doc = draw(gs.document(gs.Ctx(d, {'assert': 2, 'meta': 1, 'inplace': 3, 'object': 3, 'array': 3}, refs=0), must=draw(st.sampled_from(['inplace', 'object', 'array']))))
    doc = copy.deepcopy(doc)
    reg = refschema.Registry()
    reg.add('doc', doc, ROOT, d)
    for node in list(reg.nodes.values()):
        if isinstance(node.value, dict) and node.path[:1] != ('$defs',) and draw(st.integers(0, 2)) == 0:
            node.value['within'] = draw(st.sampled_from([True, {}, {'type': 'integer'}, {'title': 't'}, {'properties': {'a': {'type': 'string'}}}, {'items': {'minimum': 1}},
                                                         {'anyOf': [{'const': 1}, {'title': 'u'}]}, {'not': {'const': 1}}, False, {'within': {'type': 'object'}}]))
    return {'dialect': d, 'schema': doc, 'instances': draw(st.lists(gs.instances(draw(st.sampled_from([None, 'object', 'array']))), min_size=1, max_size=4))}


_cat = {}


def extended():
    """A catalog whose metaschemas have a keyword that applies its subschema in results of another class."""
    if _cat:
        return _cat['catalog'], _cat['class']
    from jschon import Result, URI, create_catalog
    from jschon.catalog import Source
    from jschon.vocabulary import Keyword, Subschema
    here = 'https://results.example/'

    class Inner(Result):
        pass

    class Within(Keyword, Subschema):
        key = 'within'

        def evaluate(self, instance, result):
            with result(instance, 'inner', self.json, cls=Inner) as sub:
                self.json.evaluate(instance, sub)
                passed = sub.passed
            if not passed:
                result.fail('not within')

    docs = {}

    class Served(Source):
        def __call__(self, relative_path):
            return docs[relative_path]

    cat = create_catalog('2019-09', '2020-12', 'next', name='pbt-results')
    cat.add_uri_source(URI(here), Served())
    cat.create_vocabulary(URI(here + 'vocab'), Within)
    for d in ('2019-09', '2020-12', 'next'):
        std = cat.get_metaschema(URI(refschema.META[d]))
        names = list(std.value['$vocabulary'])
        docs['meta-' + d] = {'$schema': refschema.META[d], '$id': here + 'meta-' + d, '$vocabulary': {**{n: True for n in names}, here + 'vocab': True}, 'type': ['object', 'boolean']}
        cat.create_metaschema(URI(here + 'meta-' + d))
    _cat.update({'catalog': cat, 'class': Inner})
    return cat, Inner


def model(schema, dialect, v):
    """The verdict: `within` applies its subschema in place."""
    def rewrite(s, d):
        if not isinstance(s, dict):
            return s
        s = dict(s)
        for rel, sub in list(refschema.children(s, d)):
            at = s
            for k in rel[:-1]:
                at[k] = copy.copy(at[k])
                at = at[k]
            last = int(rel[-1]) if isinstance(at, list) else rel[-1]
            at[last] = rewrite(at[last], d)
        if 'within' in s:
            s['allOf'] = s.get('allOf', []) + [rewrite(s.pop('within'), d)]
        return s
    reg = refschema.Registry()
    node = reg.add('doc', rewrite(copy.deepcopy(schema), dialect), ROOT, dialect)
    return refschema.Evaluator(reg, limit=MAX_STEPS).run(node, v).valid


def inner(case, note):
    from jschon import JSON, JSONSchema, Result, URI
    cat, Inner = extended()
    with cat.cache() as cid:
        schema = JSONSchema(case['schema'], catalog=cat, cacheid=cid, metaschema_uri=URI('https://results.example/meta-' + case['dialect']))
        for v in case['instances']:
            try:
                want = model(case['schema'], case['dialect'], v)
            except RuntimeError:
                continue
            result = schema.evaluate(JSON(v))
            what = f'{case["schema"]} on {v!r}'
            expect(result.valid is want, '{}: {}, not {}', what, result.valid, want)
            seen = set()
            for n in walk(result):
                inside = False
                up = n
                while up.parent is not None:
                    if up.key == 'inner' and up.parent.key == 'within':
                        inside = True
                    up = up.parent
                expect(type(n) is (Inner if inside else Result), '{}: {} is a {}', what, n.path, type(n).__name__)
                seen.add(inside)
            note.nontrivial(len(seen) == 2)
            note.label('both classes' if len(seen) == 2 else 'one class')


ALL = {'assert': 3, 'meta': 2, 'unknown': 1, 'inplace': 3, 'object': 2, 'array': 2, 'ref': 2, 'unevaluated': 1, 'content': 1, 'format': 1, 'comment': 1}
RULE = 'non-trivial when the tree has more than five nodes, and references or a custom class'
CHECKS = [
    Check('mixed', lambda: trees(ALL, 'inplace', None), tree, 2400, rule='schemas of every kind with references and embedded resources, evaluated on their own or in a given result; ' + RULE),
    Check('objects', lambda: trees({'assert': 2, 'meta': 2, 'object': 4, 'inplace': 1, 'ref': 2, 'unevaluated': 1}, 'object', 'object'), tree, 1200, rule='on objects; ' + RULE),
    Check('arrays', lambda: trees({'assert': 2, 'meta': 2, 'array': 4, 'inplace': 1, 'ref': 2, 'unevaluated': 1}, 'array', 'array'), tree, 1200, rule='on arrays; ' + RULE),
    Check('alike', twins, tree, 600, rule='up to four schemas of the same text in resources of their own, each referring to the next; ' + RULE),
    Check('inner class', marked, inner, 1600, rule='a keyword that applies its subschema in results of another class, anywhere in a schema; non-trivial when both classes occur'),
]
