"""C23: references, across resources and documents, static, dynamic and recursive."""
import json

from hypothesis import strategies as st

from pbt.gen import docs
from pbt.ref import refjson, refpointer, refschema, refuri
from .c18 import chain, fragment
from .common import Check, expect, raises
from .schemas import catalog

HOST = 'https://docs.example/'
DIALECTS = ('2019-09', '2020-12', 'next')


def fresh(doc):
    """A copy without any sharing inside."""
    return json.loads(json.dumps(doc))


# --------------------------------------------------------------- static

ASSERT = [{'type': 'string'}, {'type': 'integer'}, {'type': 'object'}, {'type': 'array'}, {'minimum': 2}, {'maximum': 1}, {'const': 1}, {'const': 'a'}, {'required': ['a']},
          {'required': ['b']}, {'maxProperties': 1}, {'minItems': 2}, {'maxLength': 1}, {'enum': [1, 2, 'a', {}, []]}, {'type': ['object', 'array']}]


class RefDraw(docs.Draw):
    """Documents with distinguishing assertions at every leaf."""

    def schema(self, depth, base, dialect, root=False, rooted_id=None):
        out = super().schema(depth, base, dialect, root, rooted_id)
        if isinstance(out, dict) and not root and self.chance(1, 2):
            out = {**self.pick(ASSERT), **out}
        return out

    def decoy(self, out):
        out['default'] = {'$ref': '#nowhere'}


@st.composite
def linked(draw):
    dialect = draw(st.sampled_from(DIALECTS))
    names = ['one', 'd/two', 'three.json'][:draw(st.integers(1, 3))]
    documents = []
    taken = set()
    switch = draw(st.integers(0, 4)) == 0
    for n in names:
        d = RefDraw(draw, dialect, HOST + n, switch=switch)
        d.uris |= taken
        rid = draw(st.sampled_from([None, HOST + n]))
        doc = d.schema(2, HOST + n, dialect, root=True, rooted_id=rid)
        if d.switch or draw(st.booleans()):
            doc['$schema'] = refschema.META[dialect]
        documents.append(fresh(doc))
        taken |= d.uris
    reg = registry(names, documents, dialect)
    nodes = list(reg.nodes.values())
    objects = [n for n in nodes if isinstance(n.value, dict)]
    for _ in range(draw(st.integers(1, 5))):
        src = draw(st.sampled_from(objects))
        if '$ref' in src.value:
            continue
        target = draw(st.sampled_from(nodes))
        src.value['$ref'] = spell(draw, reg, src, target)
    value = st.sampled_from([0, 1, 2, 'a', 'ab', None, {}, [], {'a': 1}, {'b': 'a'}, [1, 2]])
    inst = st.recursive(value, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from(['a', 'b', 'c', 'a/b', '']), c, max_size=3)), max_leaves=6)
    return {'dialect': dialect, 'names': names, 'documents': documents, 'instances': draw(st.lists(inst, min_size=2, max_size=5)),
            'order': draw(st.permutations(list(range(len(names))))), 'explicit': [draw(st.booleans()) for _ in names],
            'text': draw(st.booleans())}


@st.composite
def bundles(draw):
    """Resources within resources that use the same local names for different things."""
    dialect = draw(st.sampled_from(DIALECTS))
    names = ['one', 'd/two'][:draw(st.integers(1, 2))]
    seen = []

    def resource(rid, depth, identified):
        out = {'$id': draw(st.sampled_from([rid, rid.rpartition('/')[2]])) if '.' in rid[len(HOST):] else rid} if identified else {}
        seen.append(rid)
        defs, anchors = {}, []
        for name in draw(st.lists(st.sampled_from(['a', 'b', 'c']), min_size=1, max_size=3, unique=True)):
            defs[name] = dict(draw(st.sampled_from(ASSERT)))
            if draw(st.integers(0, 3)) == 0:
                defs[name]['$anchor'] = 'x' + name
                anchors.append('x' + name)
        local = ['#/$defs/' + n for n in defs] * 3 + ['#' + n for n in anchors] * 3 + ['#']
        for p in draw(st.lists(st.sampled_from(['a', 'b', 'c']), max_size=3, unique=True)):
            ref = {'$ref': draw(st.sampled_from(local + seen))}
            how = draw(st.integers(0, 4))
            out.setdefault('properties', {})[p] = {'allOf': [ref]} if how == 0 else {'items': ref, **ref} if how == 1 else ref
        if draw(st.integers(0, 2)) == 0:
            out.update(draw(st.sampled_from([{'items': {'$ref': local[0]}}, {'additionalProperties': {'$ref': local[0]}}, {'not': {'$ref': local[0]}}])))
        if depth:
            for i in range(draw(st.integers(0, 2))):
                inner = resource(f'{rid}.{i}', depth - 1, True)
                where = draw(st.sampled_from(['$defs', '$defs', 'allOf', 'properties', 'items', 'anyOf']))
                if where == '$defs':
                    defs['r%d' % i] = inner
                elif where == 'properties':
                    out.setdefault('properties', {})[draw(st.sampled_from(['a', 'b', 'c']))] = inner
                elif where == 'items':
                    out['items'] = inner
                else:
                    out.setdefault(where, []).append(inner)
        out['$defs'] = defs
        if draw(st.booleans()):
            out = {k: out[k] for k in draw(st.permutations(list(out)))}
        return out
    documents = []
    for n in names:
        documents.append(fresh(resource(HOST + n, 2, draw(st.booleans()))))
        seen[:] = [HOST + x for x in names[:len(documents)]]
    # what was moved away or overwritten cannot be referred to
    have = {HOST + n for n in names} | {n.base for n in registry(names, documents, dialect).nodes.values()}

    def mend(value):
        if isinstance(value, list):
            for v in value:
                mend(v)
        elif isinstance(value, dict):
            if value.get('$ref', '#').startswith(HOST) and value['$ref'] not in have:
                value['$ref'] = HOST + 'one'
            for v in value.values():
                mend(v)
    for d in documents:
        mend(d)
    leaf = st.sampled_from([0, 1, 2, 'a', 'ab', None, {}, [], {'a': 1}, {'b': 'a'}, [1, 2]])
    inst = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=2), st.dictionaries(st.sampled_from(['a', 'b', 'c']), c, max_size=3)), max_leaves=8)
    return {'dialect': dialect, 'names': names, 'documents': documents, 'instances': draw(st.lists(inst, min_size=3, max_size=6)),
            'order': list(range(len(names))), 'explicit': [draw(st.booleans()) for _ in names], 'text': False, 'inner': True}


def registry(names, documents, dialect):
    reg = refschema.Registry()
    for n, doc in zip(names, documents):
        reg.add(n, doc, HOST + n, dialect)
    return reg


def spell(draw, reg, src, target):
    """One of the references from src that designate target."""
    # embedded resources of other documents may not be loaded yet: go through the document
    uris = []
    for r in chain(target):
        if r.parent is not None and src.doc != target.doc:
            continue
        uris.append(r.base + '#' + fragment(target.path[len(r.path):]))
        if r is target:
            uris += [r.base, r.base]
    for (base, name), n in reg.anchors.items():
        if n is target and (src.doc == target.doc or reg.nodes[target.doc, ()].base == base):
            uris += [f'{base}#{name}'] * 2
    uri = draw(st.sampled_from(uris))
    base, _, frag = uri.partition('#')
    short = [uri]
    if refuri.normalize(base) == refuri.normalize(src.base) and '#' in uri:
        short += ['#' + frag] * 3
    s, a, p, q, f = refuri.split(uri)
    sb = refuri.split(src.base)
    if docs.hierarchical(src.base) and (s, a) == sb[:2] and p.startswith('/') and not p.startswith('//'):
        rooted = refuri.join(None, None, p, q, f)
        cands = [rooted, refuri.join(None, a, p, q, f)]
        d = sb[2].rpartition('/')[0] + '/'
        if p.startswith(d) and p != d and ':' not in p[len(d):].split('/')[0] and not p[len(d):].startswith('/'):
            cands.append(refuri.join(None, None, p[len(d):], q, f))
            cands.append(refuri.join(None, None, './' + p[len(d):], q, f))
        for c in cands:
            if refuri.resolve(c, src.base) == uri:
                short += [c] * 2
    return draw(st.sampled_from(short))


def serve(served):
    from jschon import Catalog, URI        # noqa
    from jschon.catalog import Source
    loads = []

    class Served(Source):
        def __call__(self, relative_path):
            loads.append(relative_path)
            return served[relative_path]
    catalog().add_uri_source(URI(HOST), Served())
    return loads


def evaluate(reg, node, instance):
    """The reference verdict, or None when the references run in circles."""
    try:
        return refschema.Evaluator(reg, limit=600).run(node, instance).valid
    except (RecursionError, RuntimeError):
        return None


def static(case, note):
    from jschon import JSON, JSONSchema, URI
    names, documents, dialect = case['names'], case['documents'], case['dialect']
    reg = registry(names, documents, dialect)
    wants = {}
    for n in names:
        for i, v in enumerate(case['instances']):
            wants[n, i] = evaluate(reg, reg.nodes[n, ()], v)
            if wants[n, i] is None:
                note.label('circular')
                return
    with catalog().cache() as cid:
        loads = serve(dict(zip(names, documents)))
        for pos in case['order']:
            n = names[pos]
            meta = URI(refschema.META[dialect])
            if case['explicit'][pos] and n not in loads:
                before = list(loads)
                JSONSchema(documents[pos], catalog=catalog(), cacheid=cid, uri=URI(HOST + n), metaschema_uri=meta)
                expect(n not in loads[len(before):], '{!r} was loaded though it was being created', n)
                note.label('created')
                loads.append(n)
            else:
                catalog().get_schema(URI(HOST + n), cacheid=cid, metaschema_uri=meta)
        expect(len(loads) == len(set(loads)), 'documents were loaded more than once: {}', loads)
        note.nontrivial(len(set(wants.values())) == 2)
        note.label('documents:%d' % len(names))
        for n in names:
            schema = catalog().get_schema(URI(HOST + n), cacheid=cid)
            for i, v in enumerate(case['instances']):
                got = schema.evaluate(JSON(v)).valid
                expect(got is wants[n, i], '{} for {!r} under {!r}, not {}', got, v, n, wants[n, i])
        if case.get('inner'):
            # the embedded resources, evaluated on their own
            for node in [x for x in reg.nodes.values() if x.path and isinstance(x.value, dict) and '$id' in x.value]:
                schema = catalog().get_schema(URI(node.base), cacheid=cid)
                for v in case['instances']:
                    want = evaluate(reg, node, v)
                    if want is not None:
                        got = schema.evaluate(JSON(v)).valid
                        expect(got is want, '{} for {!r} under the embedded {!r}, not {}', got, v, node.base, want)


# ------------------------------------------------------------- dynamic

N = {'v': 1}
RICH = [{'v': 1, 'c': {'v': 1, 'd': N, 'c': N}, 'd': {'v': 1, 'c': {'v': 1, 'd': N}}, 'l': [{'v': 0, 'c': N}]},
        {'v': 2, 'c': {'v': 2, 'c': {'v': 2, 'c': {'v': 2, 'd': N}}}, 'd': {'v': 0, 'l': [N, {'v': 1, 'd': N}]}}, {'v': 1, 'd': {'v': 1, 'd': N}}, {'v': 0, 'l': [{'l': [N], 'v': 1}]}]
VALUES = [0, 1, 2, 'a', None]
SUBSETS = [VALUES] * 8 + [[0, 1], [1, 2, 'a'], [0, 2, None], [1]]


@st.composite
def alike(draw):
    """Schemas of the same text that mean different things."""
    from .c27 import same_text
    dialect = draw(st.sampled_from(DIALECTS))
    if draw(st.booleans()):
        doc, instances = same_text(draw, dialect)
        names, documents = ['one'], [doc]
    else:
        n = draw(st.integers(2, 5))
        names = ['d/' * i + 'one' for i in range(n + 1)]
        ref = {'$ref': 'd/one'}
        key = draw(st.sampled_from(['', 'allOf', 'properties', 'items', 'not', 'additionalProperties']))
        body = {'': ref, 'allOf': {'allOf': [ref]}, 'properties': {'properties': {'a': ref}}}.get(key, {key: ref})
        documents = [body] * n + [draw(st.sampled_from(ASSERT))]
        instances = []
        for v in draw(st.lists(st.sampled_from([0, 1, 2, 'a', 'ab', None, {}, []]), min_size=2, max_size=4, unique_by=str)):
            for _ in range(draw(st.sampled_from([n, n, n - 1, 0]))):
                v = {'a': v} if 'roper' in key else [v] if key == 'items' else v
            instances.append(v)
    documents = [fresh({'$schema': refschema.META[dialect], **d}) for d in documents]
    return {'dialect': dialect, 'names': names, 'documents': documents, 'instances': instances,
            'order': draw(st.permutations(list(range(len(names))))), 'explicit': [draw(st.booleans()) for _ in names], 'text': False}


@st.composite
def chains(draw):
    """Long ways: references to references, and recursion as deep as the instance."""
    dialect = draw(st.sampled_from(DIALECTS))
    n = draw(st.integers(2, 25))
    how = draw(st.sampled_from(['pointer', 'anchor', 'id', 'document']))
    end = draw(st.sampled_from(ASSERT))
    names = ['one']
    if how == 'document':
        names += ['c%d' % i for i in range(n)]
        link = ['c%d' % i for i in range(n)]
        documents = [{'$ref': link[0]}] + [{'$ref': link[i + 1]} if i + 1 < n else end for i in range(n)]
        documents = [{'$schema': refschema.META[dialect], **d} for d in documents]
    else:
        link = {'pointer': [f'#/$defs/d{i}' for i in range(n)], 'anchor': [f'#x{i}' for i in range(n)], 'id': [f'one.{i}' for i in range(n)]}[how]
        defs = {}
        for i in range(n):
            body = {'$ref': link[i + 1]} if i + 1 < n else end
            defs[f'd{i}'] = {**({'$anchor': f'x{i}'} if how == 'anchor' else {'$id': f'one.{i}'} if how == 'id' else {}), **body}
        documents = [{'$ref': link[0], '$defs': defs}]
    deep = draw(st.integers(1, 25))
    # the recursion goes down "n" and at the end of it the chain decides
    down = draw(st.sampled_from(['properties', 'items', 'additionalProperties', 'contains']))
    again = {'$recursiveRef': '#'} if dialect == '2019-09' and draw(st.booleans()) else {'$ref': draw(st.sampled_from(['#', HOST + 'one']))}
    first = documents[0]
    chain_ref = first.pop('$ref')
    first.update({'if': {'type': 'array' if down in ('items', 'contains') else 'object', **({'minItems': 1} if down in ('items', 'contains') else {'minProperties': 1})},
                  'then': {down: {'n': again} if down == 'properties' else again}, 'else': {'$ref': chain_ref}})
    instances = []
    for v in draw(st.lists(st.sampled_from([0, 1, 2, 'a', 'ab', None, {}, []]), min_size=2, max_size=4, unique_by=str)):
        for _ in range(draw(st.sampled_from([deep, deep, 0, 1]))):
            v = [v] if down in ('items', 'contains') else {'n': v}
        instances.append(v)
    return {'dialect': dialect, 'names': names, 'documents': [fresh(d) for d in documents], 'instances': instances,
            'order': draw(st.permutations(list(range(len(names))))), 'explicit': [draw(st.booleans()) for _ in names], 'text': False}


@st.composite
def dynamic(draw):
    dialect = draw(st.sampled_from(['2020-12', '2020-12', 'next']))
    n = draw(st.integers(2, 4))
    ids = ['r%d' % i for i in range(n)]
    resources = []
    for i in range(n):
        r = {'$id': ids[i], 'title': ids[i]}
        defs = {}
        anchors = {}
        for a in ('n', 'm'):
            how = draw(st.sampled_from(['dyn', 'dyn', 'dyn', 'defs', 'plain', 'plaindefs', 'both', 'none']))
            if how in ('dyn', 'plain', 'both') and '$dynamicAnchor' in r or how in ('plain', 'both') and '$anchor' in r:
                how = 'defs'
            if how == 'dyn':
                r['$dynamicAnchor'] = a
            elif how == 'plain':
                r['$anchor'] = a
            elif how == 'defs':
                defs['D' + a] = {'$dynamicAnchor': a, 'title': f'{ids[i]}-{a}', **node_body(draw, ids, i, [])}
            elif how == 'plaindefs':
                defs['D' + a] = {'$anchor': a, 'title': f'{ids[i]}-{a}', **node_body(draw, ids, i, [])}
            elif how == 'both':
                r['$dynamicAnchor'] = a
                r['$anchor'] = a + a
            if how != 'none':
                anchors[a] = how
        r.update(node_body(draw, ids, i, list(anchors)))
        if draw(st.integers(0, 3)):
            later = ids[i + 1:]
            if later:
                r['allOf'] = [{'$ref': draw(st.sampled_from(later))} for _ in range(draw(st.integers(1, 2)))]
        if draw(st.integers(0, 3)) == 0 and anchors:
            r['dependentSchemas'] = {'w': {'$dynamicRef': '#' + draw(st.sampled_from(sorted(anchors)))}}
        if defs:
            r['$defs'] = defs
        if draw(st.booleans()):
            r = {k: r[k] for k in draw(st.permutations(list(r)))}
        resources.append(r)
    # embed some of the resources in others, by their absolute identifiers
    split = [True] + [draw(st.booleans()) for _ in range(n - 1)]
    documents, names = [], []
    for i in range(n):
        if split[i]:
            documents.append(resources[i])
            names.append(ids[i])
    for i in range(n):
        if not split[i]:
            resources[0].setdefault('$defs', {})['E%d' % i] = resources[i]
    inst = st.recursive(st.fixed_dictionaries({'v': st.sampled_from(VALUES)}),
                        lambda c: st.fixed_dictionaries({'v': st.sampled_from(VALUES)}, optional={'c': c, 'd': c, 'w': c, 'l': st.lists(c, max_size=2)}), max_leaves=6)
    return {'dialect': dialect, 'ids': ids, 'names': names, 'documents': documents, 'instances': [draw(st.sampled_from(RICH))] + draw(st.lists(st.one_of(inst, st.sampled_from(RICH)), min_size=2, max_size=4)),
            'order': draw(st.permutations(list(range(len(names))))), 'lone': draw(st.booleans())}


def node_body(draw, ids, i, anchors):
    out = {'properties': {'v': {'enum': draw(st.sampled_from(SUBSETS))}}}
    for p in ('c', 'd'):
        choices = [None]
        for a in anchors:
            choices += [{'$dynamicRef': '#' + a}] * 5 + [{'$ref': '#' + a}, {'$dynamicRef': ids[i] + '#' + a}]
        choices += [{'$ref': '#'}, {'$dynamicRef': '#'}, {'$ref': draw(st.sampled_from(ids))}]
        ch = draw(st.sampled_from(choices))
        if ch:
            out['properties'][p] = ch
    if anchors and draw(st.booleans()):
        out['properties']['l'] = {'items': {'$dynamicRef': '#' + draw(st.sampled_from(anchors))}}
    return out


@st.composite
def recursive(draw):
    n = draw(st.integers(2, 4))
    ids = ['r%d' % i for i in range(n)]
    resources = []
    for i in range(n):
        r = {'$id': ids[i], 'title': ids[i], 'properties': {'v': {'enum': draw(st.sampled_from(SUBSETS))}}}
        anchor = draw(st.sampled_from([True, True, True, False, None]))
        if anchor is not None:
            r['$recursiveAnchor'] = anchor
        for p in ('c', 'd'):
            ch = draw(st.sampled_from([None, {'$recursiveRef': '#'}, {'$recursiveRef': '#'}, {'$recursiveRef': '#'}, {'$ref': '#'}, {'$ref': draw(st.sampled_from(ids))}]))
            if ch:
                r['properties'][p] = ch
        if draw(st.booleans()):
            r['properties']['l'] = {'items': {'$recursiveRef': '#'}}
        if draw(st.integers(0, 3)) and ids[i + 1:]:
            r['allOf'] = [{'$ref': draw(st.sampled_from(ids[i + 1:]))} for _ in range(draw(st.integers(1, 2)))]
        if draw(st.booleans()):
            r = {k: r[k] for k in draw(st.permutations(list(r)))}
        resources.append(r)
    split = [True] + [draw(st.booleans()) for _ in range(n - 1)]
    documents = [r for r, s in zip(resources, split) if s]
    names = [x for x, s in zip(ids, split) if s]
    for i in range(n):
        if not split[i]:
            resources[0].setdefault('$defs', {})['E%d' % i] = resources[i]
    inst = st.recursive(st.fixed_dictionaries({'v': st.sampled_from(VALUES)}),
                        lambda c: st.fixed_dictionaries({'v': st.sampled_from(VALUES)}, optional={'c': c, 'd': c, 'l': st.lists(c, max_size=2)}), max_leaves=6)
    return {'dialect': '2019-09', 'ids': ids, 'names': names, 'documents': documents, 'instances': [draw(st.sampled_from(RICH))] + draw(st.lists(st.one_of(inst, st.sampled_from(RICH)), min_size=2, max_size=4)),
            'order': draw(st.permutations(list(range(len(names))))), 'lone': draw(st.booleans())}


def scoped(case, note):
    from jschon import JSON, JSONSchema, URI
    names, documents, dialect = case['names'], case['documents'], case['dialect']
    reg = registry(names, documents, dialect)
    starts = [HOST + i for i in case['ids']]
    wants, plain = {}, {}
    for s in starts:
        for i, v in enumerate(case['instances']):
            wants[s, i] = applied(refschema.Evaluator(reg, limit=600), reg.find(s), v)
            if wants[s, i] is None:
                note.label('circular')
                return
            plain[s, i] = applied(Static(reg, limit=600), reg.find(s), v)
    meta = URI(refschema.META[dialect])
    with catalog().cache() as cid:
        serve(dict(zip(names, documents)))
        # the first document holds all embedded resources, so it is there from the start
        first = [0] + [p for p in case['order'] if p]
        for pos in first:
            catalog().get_schema(URI(HOST + names[pos]), cacheid=cid, metaschema_uri=meta)
        moved = False
        for s in starts:
            schema = catalog().get_schema(URI(s), cacheid=cid)
            for i, v in enumerate(case['instances']):
                got = observed(schema.evaluate(JSON(v)))
                expect(got == wants[s, i], '{} for {!r} from {}, not {}', got, v, s, wants[s, i])
                note.label('valid' if got else 'invalid')
                moved = moved or wants[s, i] != plain[s, i]
        note.nontrivial(moved)
        note.label('re-targeted' if moved else 'same as static', 'documents:%d' % len(names))
        if case['lone']:
            # a new outer schema that only refers: nothing in its own scope
            outer = JSONSchema({'$ref': starts[0]}, catalog=catalog(), cacheid=cid, metaschema_uri=meta)
            for i, v in enumerate(case['instances']):
                expect(observed(outer.evaluate(JSON(v))) == wants[starts[0], i], 'from outside, for {!r}, not {}', v, wants[starts[0], i])


class Static(refschema.Evaluator):
    def dynamic_target(self, node, scope):
        return self.resolve(node, node.value['$dynamicRef'])

    def recursive_target(self, node, scope):
        return node.root


def applied(evaluator, node, instance):
    """The titles of the schemas applied at each location, [] if invalid, None if the references run in circles."""
    try:
        out = evaluator.run(node, instance)
    except (RecursionError, RuntimeError):
        return None
    return sorted({(refpointer.write(iloc), value) for iloc, _, key, value in out.notes if key == 'title'}) if out.valid else []


def observed(result):
    if not result.valid:
        return []
    return sorted({(u['instanceLocation'], u['annotation']) for u in result.output('basic', annotations=['title'])['annotations']})


# ------------------------------------------------------------ inheriting

# (no unevaluated keywords: what one dialect counts of another's annotations is not specified)
MARKS = [{'prefixItems': [{'type': 'string'}]}, {'items': {'type': 'string'}, 'additionalItems': False, 'prefixItems': [True]}, {'prefixItems': [{'type': 'integer'}], 'items': False}, {'additionalItems': {'type': 'string'}}, {}]


@st.composite
def inheriting(draw):
    """A chain of documents, each referred to from inside the one before; few say their dialect."""
    current = dialect = draw(st.sampled_from(DIALECTS))
    documents, names, dialects = [], [], []
    n = draw(st.integers(1, 3))
    for i in range(n):
        names.append('c%d' % i)
        dialects.append(current)
        doc = at = {}
        if i == 0 and draw(st.booleans()):
            current = at['$schema'] = draw(st.sampled_from(DIALECTS))
        for level in range(draw(st.integers(0, 3))):
            at.update(draw(st.sampled_from(MARKS)))
            inner = {}
            where = draw(st.sampled_from(['allOf', 'anyOf', 'oneOf', 'if', 'not']))
            at[where] = [inner] if where.endswith('Of') else {'not': inner} if where == 'not' else inner
            at = inner
            if draw(st.booleans()):
                at['$id'] = f'inner{i}{level}'
                if draw(st.integers(0, 2)):
                    current = at['$schema'] = draw(st.sampled_from(DIALECTS))
        at.update(draw(st.sampled_from(MARKS)))
        if i < n - 1:
            at['$ref'] = HOST + 'c%d' % (i + 1)
        documents.append(doc)
        if draw(st.booleans()):
            # members in another order
            at_ = list(at.items())
            at.clear()
            at.update(reversed(at_))
    for doc in documents:
        for _, v in refjson.walk(doc):
            if isinstance(v, dict) and '$schema' in v:
                v['$schema'] = refschema.META[v['$schema']]
    item = st.sampled_from([1, 'a', None])
    return {'dialect': dialect, 'names': names, 'documents': documents, 'dialects': dialects, 'instances': draw(st.lists(st.lists(item, max_size=3), min_size=2, max_size=5))}


def inherited(case, note):
    from jschon import JSON, JSONSchema, URI
    reg = refschema.Registry()
    for n, doc, d in zip(case['names'], case['documents'], case['dialects']):
        reg.add(n, doc, HOST + n, d)
    note.nontrivial(len(set(case['dialects'])) > 1)
    with catalog().cache() as cid:
        loads = serve(dict(zip(case['names'], case['documents'])))
        schema = JSONSchema(case['documents'][0], catalog=catalog(), cacheid=cid, uri=URI(HOST + 'c0'), metaschema_uri=URI(refschema.META[case['dialect']]))
        expect(loads == case['names'][1:], 'loaded {}', loads)
        for n, d in zip(case['names'], case['dialects']):
            got = catalog().get_schema(URI(HOST + n), cacheid=cid)
            own = reg.nodes[n, ()].dialect
            expect(str(got.metaschema_uri) == refschema.META[own], 'the metaschema of {!r} is {}, not that of {}', n, got.metaschema_uri, own)
        for v in case['instances']:
            want = refschema.Evaluator(reg, limit=600).run(reg.nodes['c0', ()], v).valid
            got = schema.evaluate(JSON(v)).valid
            expect(got is want, '{} on {!r} is {}, not {}', case['documents'], v, got, want)


# ------------------------------------------------------------ dangling

@st.composite
def dangling(draw):
    case = fresh(draw(docs.identified(depth=2, switch=False)))
    reg = refschema.Registry()
    reg.add('doc', case['schema'], case['uri'] or 'urn:uuid:00000000-0000-4000-8000-000000000000', case['dialect'])
    objects = [p for (_, p), n in reg.nodes.items() if isinstance(n.value, dict)]
    path = draw(st.sampled_from(objects))
    where = refpointer.evaluate(case['schema'], path)
    new = case['dialect'] != '2019-09'
    where['$ref' if not new or draw(st.booleans()) else '$dynamicRef'] = draw(st.sampled_from(
        ['#nowhere', '#/nowhere', '#/$defs/none', 'https://nowhere.example/x', 'https://nowhere.example/x#y', 'urn:no:where', '#/type', '#decoy', 'https://decoy.example/d',
         'missing.json', '/missing', '#/allOf/7', '#/allOf/-1', '#/allOf/00', 'https://docs.example/gone', '#/$id', '#/properties', '#//', '#/$defs']))
    case['at'] = list(path)
    return case


def refused(case, note):
    from jschon import JSONSchema, URI
    from jschon.exc import JschonError
    reg = refschema.Registry()
    reg.add('doc', case['schema'], case['uri'] or 'urn:uuid:00000000-0000-4000-8000-000000000000', case['dialect'])
    node = reg.nodes['doc', tuple(case['at'])]
    ref = node.value.get('$ref') or node.value.get('$dynamicRef')
    resolvable = docs.hierarchical(node.base) or ref.startswith('#') or ':' in ref
    if resolvable:
        try:
            reg.find(refuri.resolve(ref, node.base) if not refuri.split(ref)[0] else ref)
            note.label('resolves')
            return
        except refschema.Unresolvable:
            pass
    note.nontrivial(bool(case['at']))
    with catalog().cache() as cid:
        serve({'d/ok': {}})
        with raises(JschonError, f'a schema with a reference to {ref!r} at {case["at"]}'):
            JSONSchema(case['schema'], catalog=catalog(), cacheid=cid, uri=URI(case['uri']) if case['uri'] else None, metaschema_uri=URI(refschema.META[case['dialect']]))




CHECKS = [
    Check('static', linked, static, 3200,
          rule='one to three documents with nested resources, linked by references spelled in every way, created or loaded in any order; non-trivial when both verdicts occur'),
    Check('bundles', bundles, static, 1600,
          rule='resources within resources, the same local definitions and anchors in each, local references; non-trivial when both verdicts occur'),
    Check('alike', alike, static, 800, rule='up to six schemas of the same text, in documents or resources of their own, each referring to the next; non-trivial when both verdicts occur'),
    Check('chains', chains, static, 320,
          rule='chains of up to 25 references, by pointer, anchor, identifier or document, below recursion as deep as the instance; non-trivial when both verdicts occur'),
    Check('dynamic', dynamic, scoped, 3000,
          rule='two to four resources, embedded or separate, with dynamic and plain anchors and dynamic references; non-trivial when a static reading of the references gives another result'),
    Check('recursive', recursive, scoped, 2500, rule='the same with recursive anchors and references (2019-09)'),
    Check('inheriting', inheriting, inherited, 1200,
          rule='chains of documents without "$schema", referred to from resources that have one; non-trivial when the documents get different dialects'),
    Check('dangling', dangling, refused, 1600, rule='documents with one reference that leads nowhere; non-trivial below the root'),
]
