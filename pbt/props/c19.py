"""C19: the tree of a schema object against its document and the lexical model."""
import random
import urllib.parse

from hypothesis import strategies as st

from pbt.gen import docs
from pbt.ref import refjson, refschema, refuri
from .c18 import fragment, make
from .common import Check, expect, keys_of
from .schemas import catalog


@st.composite
def cases(draw):
    case = draw(docs.identified(depth=draw(st.sampled_from([2, 3, 3, 4]))))
    case['order'] = draw(st.integers(0, 999))
    return case


def split(uri):
    base, hash_, frag = uri.partition('#')
    return refuri.normalize(base), hash_, urllib.parse.unquote(frag)


def structure(case, note):
    from jschon import JSON, JSONSchema
    with catalog().cache() as cid:
        cat, schema, reg, root = make(case, cid)
        # every node with its parent node and key, found through the containers alone
        nodes = {(): (schema, None, None)}
        stack = [((), schema)]
        values = {(): case['schema']}
        while stack:
            path, node = stack.pop()
            v = values[path]
            t = refjson.typeof(v)
            expect(node.type == t, 'type at {}: {} != {}', path, node.type, t)
            if t == 'object':
                expect(type(node.data) is dict and set(node.data) == set(v), 'members at {}: {!r} != {!r}', path, list(node.data), list(v))
                pairs = [(k, node.data[k], v[k]) for k in v]
            elif t == 'array':
                expect(type(node.data) is list and len(node.data) == len(v), 'items at {}', path)
                pairs = [(str(i), node.data[i], x) for i, x in enumerate(v)]
            else:
                expect(refjson.same(node.data, v), 'data at {}: {!r} != {!r}', path, node.data, v)
                pairs = []
            for k, child, cv in pairs:
                p = path + (k,)
                values[p] = cv
                nodes[p] = (child, node, k)
                stack.append((p, child))

        schemas = [p for (d, p) in reg.nodes]
        note.nontrivial(len(schemas) > 3)
        note.label('schemas:%d' % min(len(schemas) // 4 * 4, 20), case['dialect'])
        # cached attributes are read in any order
        order = list(nodes)
        random.Random(case['order']).shuffle(order)
        for path in order:
            node, parent, key = nodes[path]
            is_schema = ('doc', path) in reg.nodes
            expect(isinstance(node, JSON), 'not a node at {}', path)
            expect(isinstance(node, JSONSchema) is is_schema, 'at {} there is a {}, not a {}', path, type(node).__name__, 'schema' if is_schema else 'plain node')
            expect(node.parent is parent and node.key == key, 'links at {}: key {!r}', path, node.key)
            expect(keys_of(node.path) == list(path), 'path at {}: {}', path, node.path)
            expect(refjson.eq(node.value, values[path]), 'value at {}: {!r} != {!r}', path, node.value, values[path])
            if not is_schema:
                continue
            ref = reg.nodes['doc', path]

            def same(attr, want):
                got = getattr(node, attr)
                expect(got is want, '{} of the schema at {} is {}, not {}', attr, path,
                       got if got is None else list(keys_of(got.path)), want if want is None else list(keys_of(want.path)))
            same('parentschema', nodes[ref.parent.path][0] if ref.parent else None)
            same('resource_rootschema', nodes[ref.root.path][0])
            same('document_rootschema', schema)
            # an embedded resource with its own "$schema" is in its own dialect
            meta = refschema.META[ref.dialect]
            expect(str(node.metaschema_uri) == meta, 'metaschema URI at {}: {} != {}', path, node.metaschema_uri, meta)
            expect(str(node.metaschema.uri) == meta, 'metaschema at {}: {} != {}', path, node.metaschema.uri, meta)
            base = refuri.normalize(ref.base)
            expect(node.base_uri is not None and refuri.normalize(str(node.base_uri)) == base, 'base URI at {}: {} != {}', path, node.base_uri, base)
            if ref.root is ref:
                expect(refuri.normalize(str(node.uri)) == base, 'URI at {}: {} != {}', path, node.uri, base)
            want = base + ('' if ref.root is ref else '#' + fragment(path[len(ref.root.path):]))
            got = str(node.canonical_uri)
            expect(split(got) == split(want), 'canonical URI at {}: {!r} != {!r}', path, got, want)
            expect(cat.get_schema(node.canonical_uri, cacheid=cid) is node, 'canonical URI {!r} leads from {} to another schema', got, path)
            expect(node.catalog is cat and node.cacheid == cid, 'catalog or cache at {}', path)
            if isinstance(values[path], dict):
                expect(set(node.keywords) == set(values[path]), 'keywords at {}: {} != {}', path, set(node.keywords), set(values[path]))
                for k, kw in node.keywords.items():
                    expect(kw.parentschema is node and kw.json is node.data[k] and kw.key == k, 'keyword {} at {}', k, path)


CHECKS = [Check('structure', cases, structure, 5000,
                rule='schema documents with nested resources, dialect changes and decoys; every node is checked, in random order; non-trivial with more than three schemas')]
