"""An evaluator for JSON Schema 2019-09, 2020-12 and next, written from the
specifications.  It keeps, beside the verdict, the sets of evaluated property
names and item indices, and the annotations with their locations."""
import re
import urllib.parse
from fractions import Fraction

from . import refjson, refpointer, refuri

META = {
    '2019-09': 'https://json-schema.org/draft/2019-09/schema',
    '2020-12': 'https://json-schema.org/draft/2020-12/schema',
    'next': 'https://json-schema.org/draft/next/schema',
}
DIALECT_OF = {v: k for k, v in META.items()}

COMMON_ONE = {'not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'propertyNames',
              'unevaluatedItems', 'unevaluatedProperties'}
COMMON_ARRAY = {'allOf', 'anyOf', 'oneOf'}
COMMON_OBJECT = {'properties', 'patternProperties', 'dependentSchemas', '$defs'}
METADATA = {'title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples'}
STATIC = {'$schema', '$id', '$anchor', '$dynamicAnchor', '$recursiveAnchor', '$vocabulary', '$comment', '$defs'}
KNOWN = COMMON_ONE | COMMON_ARRAY | COMMON_OBJECT | METADATA | {
    '$schema', '$id', '$anchor', '$vocabulary', '$comment', '$ref', 'items', 'type', 'enum', 'const', 'multipleOf',
    'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength', 'minLength', 'pattern', 'maxItems',
    'minItems', 'uniqueItems', 'maxContains', 'minContains', 'maxProperties', 'minProperties', 'required',
    'dependentRequired', 'format', 'contentMediaType', 'contentEncoding', 'contentSchema'}
EXTRA = {'2019-09': {'additionalItems', '$recursiveRef', '$recursiveAnchor'},
         '2020-12': {'prefixItems', '$dynamicRef', '$dynamicAnchor'},
         'next': {'prefixItems', '$dynamicRef', '$dynamicAnchor'}}


def known(dialect):
    return KNOWN | EXTRA[dialect]


class Unresolvable(Exception):
    pass


def children(schema, dialect):
    """(relative path, subschema) for the subschemas directly inside a schema object."""
    if not isinstance(schema, dict):
        return
    for k, v in schema.items():
        one = k in COMMON_ONE or (k == 'items') or (k == 'additionalItems' and dialect == '2019-09')
        arr = k in COMMON_ARRAY or (k == 'prefixItems' and dialect != '2019-09') or (k == 'items' and dialect == '2019-09')
        if one and isinstance(v, (bool, dict)):
            yield (k,), v
        elif arr and isinstance(v, list):
            for i, x in enumerate(v):
                yield (k, str(i)), x
        elif k in COMMON_OBJECT and isinstance(v, dict):
            for kk, x in v.items():
                yield (k, kk), x


class Node:
    __slots__ = ('doc', 'path', 'value', 'base', 'root', 'dialect', 'parent')

    def __init__(self, doc, path, value, base, root, dialect, parent):
        self.doc, self.path, self.value, self.base, self.dialect, self.parent = doc, path, value, base, dialect, parent
        self.root = root or self


class Registry:
    """All the schemas of a set of documents, by location and by identifier."""

    def __init__(self):
        self.nodes = {}         # (doc, path) -> Node
        self.resources = {}     # base URI -> Node
        self.anchors = {}       # (base, name) -> Node
        self.dynamic = {}       # (base, name) -> Node

    def add(self, doc, schema, uri, dialect='2020-12', meta_dialects=None):
        """doc: any name for the document; uri: the URI it is retrieved under."""
        self._walk(doc, (), schema, uri, None, dialect, None, meta_dialects or DIALECT_OF)
        return self.nodes[doc, ()]

    def _walk(self, doc, path, schema, base, root, dialect, parent, dialects):
        if isinstance(schema, dict):
            if '$schema' in schema:
                dialect = dialects[schema['$schema']]
            if '$id' in schema:
                base = refuri.resolve(schema['$id'], base) if base else schema['$id']
                base = base.partition('#')[0]
                root = None
        node = Node(doc, path, schema, base, root, dialect, parent)
        self.nodes[doc, path] = node
        if isinstance(schema, dict):
            if node.root is node:
                self.resources[base] = node
            if '$anchor' in schema:
                self.anchors[base, schema['$anchor']] = node
            if '$dynamicAnchor' in schema and dialect != '2019-09':
                self.anchors[base, schema['$dynamicAnchor']] = node
                self.dynamic[base, schema['$dynamicAnchor']] = node
            for rel, sub in children(schema, dialect):
                self._walk(doc, path + rel, sub, base, node.root, dialect, node, dialects)
        elif parent is None:
            self.resources[base] = node

    def find(self, uri):
        """The node an absolute URI designates."""
        base, hash_, fragment = uri.partition('#')
        root = self.resources.get(base)
        if root is None:
            raise Unresolvable(uri)
        if not fragment:
            return root
        text = urllib.parse.unquote(fragment)
        if text.startswith('/'):
            try:
                keys = refpointer.parse(text)
            except refpointer.Malformed:
                raise Unresolvable(uri)
            node = self.nodes.get((root.doc, root.path + tuple(keys)))
        else:
            node = self.anchors.get((base, fragment))
        if node is None:
            raise Unresolvable(uri)
        return node


# ------------------------------------------------------------- numbers etc.

def exact(x):
    """The exact value of the decimal text of a number."""
    return Fraction(x) if isinstance(x, int) else Fraction(repr(x))


def is_type(v, t):
    if t == 'integer':
        return not isinstance(v, bool) and isinstance(v, (int, float)) and exact(v).denominator == 1
    return refjson.typeof(v) == t


PATTERNS = {
    '': lambda s: True,
    'a': lambda s: 'a' in s,
    '^a': lambda s: s.startswith('a'),
    'b$': lambda s: s.endswith('b'),
    '^a.*b$': lambda s: len(s) > 1 and s[0] == 'a' and s[-1] == 'b',
    '^.$': lambda s: len(s) == 1,
    '^(a|b)': lambda s: s[:1] in ('a', 'b') and s != '',
    '^[^a]': lambda s: s != '' and s[0] != 'a',
    '[0-9]': lambda s: any('0' <= c <= '9' for c in s),
    '^[0-9]+$': lambda s: s != '' and all('0' <= c <= '9' for c in s),
    '^x-': lambda s: s.startswith('x-'),
    'aa': lambda s: 'aa' in s,
    'b': lambda s: 'b' in s,
    '(?<=a)b': lambda s: 'ab' in s,
    '^$': lambda s: s == '',
    '\\.': lambda s: '.' in s,
    '^.{2,3}$': lambda s: 2 <= len(s) <= 3,
    'é': lambda s: 'é' in s,
    '/': lambda s: '/' in s,
    '~': lambda s: '~' in s,
    '^c?$': lambda s: s in ('', 'c'),
    '.': lambda s: s != '',
    ' ': lambda s: ' ' in s,
    '^ ': lambda s: s[:1] == ' ',
    ' $': lambda s: s[-1:] == ' ',
    'A': lambda s: 'A' in s,
    '[^a-z]': lambda s: any(not 'a' <= c <= 'z' for c in s),
}


_FIRST = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
_NEXT = _FIRST + '0123456789-._'
# the patterns of the metaschemas
META_PATTERNS = {
    '^[A-Za-z_][-A-Za-z0-9._]*$': lambda s: s != '' and s[0] in _FIRST + '_' and all(c in _NEXT for c in s),
    '^[A-Za-z][-A-Za-z0-9.:_]*$': lambda s: s != '' and s[0] in _FIRST and all(c in _NEXT + ':' for c in s),
    '^[^#]*#?$': lambda s: '#' not in s[:-1],
    '^[^#]*$': lambda s: '#' not in s,
}


def matches(pattern, s):
    f = PATTERNS.get(pattern) or META_PATTERNS.get(pattern)
    return f(s) if f else re.search(pattern, s) is not None


def assertion(k, kv, schema, v):
    """True/False for an assertion keyword; None if k is not one or does not apply."""
    t = refjson.typeof(v)
    if k == 'type':
        return any(is_type(v, x) for x in (kv if isinstance(kv, list) else [kv]))
    if k == 'enum':
        return any(refjson.eq(v, x) for x in kv)
    if k == 'const':
        return refjson.eq(v, kv)
    if t == 'number':
        if k == 'multipleOf':
            return (exact(v) / exact(kv)).denominator == 1
        if k == 'maximum':
            return exact_cmp(v, kv) <= 0
        if k == 'exclusiveMaximum':
            return exact_cmp(v, kv) < 0
        if k == 'minimum':
            return exact_cmp(v, kv) >= 0
        if k == 'exclusiveMinimum':
            return exact_cmp(v, kv) > 0
    if t == 'string':
        n = sum(1 for _ in v)
        if k == 'maxLength':
            return n <= kv
        if k == 'minLength':
            return n >= kv
        if k == 'pattern':
            return matches(kv, v)
    if t == 'array':
        if k == 'maxItems':
            return len(v) <= kv
        if k == 'minItems':
            return len(v) >= kv
        if k == 'uniqueItems':
            return not kv or not any(refjson.eq(v[i], v[j]) for i in range(len(v)) for j in range(i))
    if t == 'object':
        if k == 'maxProperties':
            return len(v) <= kv
        if k == 'minProperties':
            return len(v) >= kv
        if k == 'required':
            return all(x in v for x in kv)
        if k == 'dependentRequired':
            return all(d in v for x, ds in kv.items() if x in v for d in ds)
    return None


def exact_cmp(a, b):
    a, b = Fraction(a), Fraction(b)     # the double itself: its comparison is never in doubt
    return (a > b) - (a < b)


# ------------------------------------------------------------- evaluation

class Out:
    """What applying a schema to an instance gives."""
    __slots__ = ('valid', 'props', 'items', 'notes')

    def __init__(self):
        self.valid, self.props, self.items, self.notes = True, set(), set(), []

    def take(self, other):
        """In-place applicator: everything a valid subschema evaluated counts."""
        if other.valid:
            self.props |= other.props
            self.items |= other.items
            self.notes += other.notes


class Evaluator:
    def __init__(self, registry, formats=None, limit=200000):
        self.reg = registry
        self.formats = formats or {}
        self.steps = 0
        self.limit = limit
        self.applied = set()        # (path of the schema in its document, instance location)

    def run(self, node, instance, iloc=()):
        return self.apply(node, instance, tuple(iloc), (), [])

    def sub(self, node, *rel):
        return self.reg.nodes[node.doc, node.path + rel]

    def resolve(self, node, ref):
        return self.reg.find(refuri.resolve(ref, node.base) if node.base else ref)

    def apply(self, node, v, iloc, kpath, scope):
        self.steps += 1
        if self.steps > self.limit:
            raise RuntimeError('too many steps')
        out = Out()
        self.applied.add((node.path, iloc))
        schema = node.value
        if isinstance(schema, bool):
            out.valid = schema
            return out
        scope = scope + [node]
        t = refjson.typeof(v)
        d = node.dialect
        new = d != '2019-09'

        def note(k, value):
            out.notes.append((iloc, kpath + (k,), k, value))

        def fail():
            out.valid = False

        def one(k, value=v, loc=iloc):
            return self.apply(self.sub(node, k), value, loc, kpath + (k,), scope)

        for k, kv in schema.items():
            verdict = assertion(k, kv, schema, v)
            if verdict is False:
                fail()
            if k in METADATA or k not in known(d):
                note(k, kv)
            elif k == 'format':
                note(k, kv)
                if kv in self.formats and not self.formats[kv](v):
                    fail()
            elif k in ('contentMediaType', 'contentEncoding') and t == 'string':
                note(k, kv)
            elif k == 'contentSchema' and t == 'string' and 'contentMediaType' in schema:
                note(k, kv)

        # --- in place
        for k in ('allOf', 'anyOf', 'oneOf'):
            if k in schema:
                rs = [self.apply(self.sub(node, k, str(i)), v, iloc, kpath + (k, str(i)), scope) for i in range(len(schema[k]))]
                n = sum(r.valid for r in rs)
                if not {'allOf': n == len(rs), 'anyOf': n > 0, 'oneOf': n == 1}[k]:
                    fail()
                for r in rs:
                    out.take(r)
        if 'not' in schema and one('not').valid:
            fail()
        if 'if' in schema:
            r = one('if')
            out.take(r)
            k = 'then' if r.valid else 'else'
            if k in schema:
                r = one(k)
                if not r.valid:
                    fail()
                out.take(r)
        if t == 'object' and 'dependentSchemas' in schema:
            for name in schema['dependentSchemas']:
                if name in v:
                    r = self.apply(self.sub(node, 'dependentSchemas', name), v, iloc, kpath + ('dependentSchemas', name), scope)
                    if not r.valid:
                        fail()
                    out.take(r)
        if '$ref' in schema:
            r = self.apply(self.resolve(node, schema['$ref']), v, iloc, kpath + ('$ref',), scope)
            if not r.valid:
                fail()
            out.take(r)
        if new and '$dynamicRef' in schema:
            r = self.apply(self.dynamic_target(node, scope), v, iloc, kpath + ('$dynamicRef',), scope)
            if not r.valid:
                fail()
            out.take(r)
        if not new and '$recursiveRef' in schema:
            r = self.apply(self.recursive_target(node, scope), v, iloc, kpath + ('$recursiveRef',), scope)
            if not r.valid:
                fail()
            out.take(r)

        # --- children
        if t == 'object':
            def child(k, name, rel=()):
                r = self.apply(self.sub(node, k, *rel), v[name], iloc + (name,), kpath + (k,) + rel, scope)
                if not r.valid:
                    fail()
                else:
                    out.notes.extend(r.notes)

            local = set()
            if 'properties' in schema:
                names = [n for n in v if n in schema['properties']]
                for n in names:
                    child('properties', n, (n,))
                local |= set(names)
                note('properties', names)
            if 'patternProperties' in schema:
                names = []
                for n in v:
                    hit = [p for p in schema['patternProperties'] if matches(p, n)]
                    for p in hit:
                        child('patternProperties', n, (p,))
                    if hit:
                        names.append(n)
                local |= set(names)
                note('patternProperties', names)
            if 'additionalProperties' in schema:
                names = [n for n in v if n not in local]
                for n in names:
                    child('additionalProperties', n)
                local |= set(names)
                note('additionalProperties', names)
            if 'propertyNames' in schema:
                for n in v:
                    r = self.apply(self.sub(node, 'propertyNames'), n, iloc + (n,), kpath + ('propertyNames',), scope)
                    if not r.valid:
                        fail()
                    else:
                        out.notes.extend(r.notes)
            out.props |= local
            if 'unevaluatedProperties' in schema:
                names = [n for n in v if n not in out.props]
                for n in names:
                    child('unevaluatedProperties', n)
                out.props |= set(names)
                note('unevaluatedProperties', names)

        if t == 'array':
            def item(k, i, rel=()):
                r = self.apply(self.sub(node, k, *rel), v[i], iloc + (str(i),), kpath + (k,) + rel, scope)
                if not r.valid:
                    fail()
                else:
                    out.notes.extend(r.notes)

            local = set()
            start = 0
            prefix = 'prefixItems' if new else 'items'
            if prefix in schema and isinstance(schema[prefix], list):
                start = len(schema[prefix])
                idx = range(min(start, len(v)))
                for i in idx:
                    item(prefix, i, (str(i),))
                local |= set(idx)
                if idx:
                    whole = len(idx) == len(v)
                    note(prefix, True if whole and new else len(idx) - 1)
            rest = 'items' if new or not isinstance(schema.get('items'), list) else 'additionalItems'
            if rest in schema:
                idx = range(start, len(v))
                for i in idx:
                    item(rest, i)
                local |= set(idx)
                if idx:
                    note(rest, True)
            if 'contains' in schema:
                hits = []
                for i, x in enumerate(v):
                    r = self.apply(self.sub(node, 'contains'), x, iloc + (str(i),), kpath + ('contains',), scope)
                    if r.valid:
                        hits.append(i)
                        out.notes.extend(r.notes)
                if len(hits) < schema.get('minContains', 1) or len(hits) > schema.get('maxContains', len(v)):
                    fail()
                note('contains', hits)
                if new:
                    local |= set(hits)
            out.items |= local
            if 'unevaluatedItems' in schema:
                idx = [i for i in range(len(v)) if i not in out.items]
                for i in idx:
                    item('unevaluatedItems', i)
                out.items |= set(idx)
                if idx:
                    note('unevaluatedItems', True)
        if not out.valid:
            out.notes, out.props, out.items = [], set(), set()
        return out

    def dynamic_target(self, node, scope):
        ref = node.value['$dynamicRef']
        target = self.resolve(node, ref)
        fragment = ref.partition('#')[2]
        if self.reg.dynamic.get((target.base, fragment)) is target:
            for outer in scope:
                hit = self.reg.dynamic.get((outer.base, fragment))
                if hit is not None:
                    return hit
        return target

    def recursive_target(self, node, scope):
        target = node.root
        if isinstance(target.value, dict) and target.value.get('$recursiveAnchor') is True:
            for outer in scope:
                if outer.value.get('$recursiveAnchor') is True:
                    return outer
        return target


def evaluate(schema, instance, dialect='2020-12', uri='urn:x-doc', formats=None):
    reg = Registry()
    node = reg.add('doc', schema, uri, dialect)
    return Evaluator(reg, formats).run(node, instance)
