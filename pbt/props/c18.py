"""C18: every identifier of every embedded schema, and nothing else, is found."""
import urllib.parse

from hypothesis import strategies as st

from pbt.gen import docs
from pbt.ref import refjson, refpointer, refschema, refuri
from .common import Check, Violation, expect, raises
from .schemas import catalog


def fragment(path):
    return urllib.parse.quote(refpointer.write(path), safe="/~!$&'()*+,;=:@?-._")


def at(root, path):
    """The node of a jschon document at a path, by its own containers."""
    for k in path:
        root = root.data[int(k)] if root.type == 'array' else root.data[k]
    return root


def make(case, cid):
    """The real schema and the registry describing the same document."""
    from jschon import JSONSchema, URI
    cat = catalog()
    uri = case['uri']
    schema = JSONSchema(case['schema'], catalog=cat, cacheid=cid, uri=URI(uri) if uri else None, metaschema_uri=URI(refschema.META[case['dialect']]))
    reg = refschema.Registry()
    base = uri
    if uri is None and '$id' not in case['schema']:
        base = str(schema.uri)
        expect(base.startswith('urn:uuid:') and len(base) == 45, 'a schema without an identifier is called {!r}', base)
    node = reg.add('doc', case['schema'], base, case['dialect'])
    return cat, schema, reg, node


def chain(node):
    """The resource roots around a node, from the inside out."""
    roots = []
    while node is not None:
        if node.root is node:
            roots.append(node)
        node = node.parent
    return roots


def lookup(cat, cid, text, what):
    from jschon import URI
    from jschon.exc import CatalogError
    try:
        return cat.get_schema(URI(text), cacheid=cid)
    except CatalogError as e:
        raise Violation(f'{what}: {text!r} is not found') from e


def found(case, note):
    from jschon import URI
    from jschon.exc import CatalogError
    with catalog().cache() as cid:
        cat, schema, reg, root = make(case, cid)
        resources = sum(n.root is n for n in reg.nodes.values())
        note.nontrivial(resources > 1 or reg.anchors)
        note.label('resources:%d' % min(resources, 5), case['dialect'])
        good = set()
        for (doc, path), node in reg.nodes.items():
            want = at(schema, path)
            uris = []
            if node.root is node:
                uris += [node.base, node.base + '#', refuri.normalize(node.base)]
            for r in chain(node):
                uris.append(r.base + '#' + fragment(path[len(r.path):]))
            for (base, name), n in reg.anchors.items():
                if n is node:
                    uris.append(f'{base}#{name}')
            for u in uris:
                good.add(u)
                got = lookup(cat, cid, u, f'the schema at {list(path)}')
                expect(got is want, '{!r} is {} at {}, not the schema at {}', u, type(got).__name__, got.path, list(path))
        # what is no schema is not found
        for path, value in refjson.walk(case['schema']):
            path = tuple(path)
            if ('doc', path) in reg.nodes:
                continue
            owner = path
            while ('doc', owner) not in reg.nodes:
                owner = owner[:-1]
            for r in chain(reg.nodes['doc', owner]):
                with raises(CatalogError, f'{list(path)} is no schema, but {r.base}#{fragment(path[len(r.path):])} is found'):
                    cat.get_schema(URI(r.base + '#' + fragment(path[len(r.path):])), cacheid=cid)
        for r in [n for n in reg.nodes.values() if n.root is n]:
            for f in ['decoy', '/nowhere', '/properties', '/$defs', '//', '/0', '/-1', 'nowhere', '/allOf', '/allOf/00', '/allOf/-1', '/allOf/+0', '/items/-', '/prefixItems/-1'] + docs.NAMES:
                u = r.base + '#' + f
                if u in good:
                    continue
                try:
                    reg.find(u)
                    continue
                except refschema.Unresolvable:
                    pass
                with raises(CatalogError, f'{u} identifies nothing, but is found'):
                    cat.get_schema(URI(u), cacheid=cid)
            if r.base and docs.hierarchical(r.base):
                for i in ('decoy', 'https://decoy.example/d'):
                    with raises(CatalogError, f'{i!r} at {r.base!r} is data, but is found'):
                        cat.get_schema(URI(refuri.resolve(i, r.base)), cacheid=cid)


CHECKS = [Check('identifiers', docs.identified, found, 5000,
                rule='schema documents with nested and relative identifiers and anchors at every kind of subschema position and decoys in data; '
                     'every identifying URI, every location that is no schema, and unused names are looked up; non-trivial with two resources or an anchor')]
