"""Schema documents with identifiers: nested resources, anchors, and decoys in data."""
from hypothesis import strategies as st

from pbt.ref import refschema, refuri

DIALECTS = ('2019-09', '2020-12', 'next')
NAMES = ['a', 'b', 'x', 'y', 'foo', 'bar-1', '_u', 'A', 'x.y']
PROP = ['a', 'b', 'c', 'a/b', 'm~n', '', 'é', '%25', 'p q', '"', '0', '$id', '$ref', 'properties', '$defs', 'items', '\\', '^a', '#', '\U0001d4b3', '~1', 'a:b', '%', '+']
REL_IDS = ['a', 'b.json', 'd/', 'd/e', '../up', './x/../y', '/rooted', '/r/s', '?q=1', 'c?q', '//net.example/n', './', '..', '%7Et', 'UP', 'k;v=1', 'd/e/f', 'z/']
ABS_IDS = ['https://o.example/r', 'https://o.example/s/t', 'http://p.example', 'https://p.example/', 'urn:example:u', 'urn:uuid:ee564b8a-7a87-4125-8c96-e9f123d6766f',
           'tag:t.example,2020:x', 'https://o.example/r?q', 'file:/f/g', 'https://u@o.example:81/r']
ROOTS = ['https://r.example/root', 'https://r.example/d/root.json', 'https://r.example/', 'https://r.example', 'https://r.example/d/e/?q', 'urn:example:root', 'http://r.example:8080/x']
name = st.one_of(st.sampled_from(NAMES), st.sampled_from(PROP))
leaf_value = st.sampled_from([{'type': 'string'}, {'const': 1}, {'title': 't'}, {'minimum': 2}, {}, True, False])


def hierarchical(base):
    s, a, p, q, f = refuri.split(base)
    return bool(a) or (p or '').startswith('/')


class Draw:
    def __init__(self, draw, dialect, base, switch=True, dynamic=True, ids=True):
        self.draw, self.base, self.switch, self.dynamic, self.ids = draw, base, switch, dynamic, ids
        self.uris = {refuri.normalize(base)}
        self.anchors = set()
        self.budget = draw(st.sampled_from([4, 8, 16, 24]))

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def chance(self, n, of):
        return self.draw(st.integers(1, of)) <= n

    def anchor(self, base):
        for _ in range(3):
            n = self.pick(NAMES)
            if (base, n) not in self.anchors:
                self.anchors.add((base, n))
                return n
        return None

    def schema(self, depth, base, dialect, root=False, rooted_id=None):
        if not root and self.chance(1, 6):
            return self.draw(leaf_value)
        self.budget -= 1
        out = {}
        if rooted_id is not None:
            out['$id'] = rooted_id
        elif not root and self.ids and self.chance(2, 5):
            cands = (REL_IDS + ABS_IDS) if hierarchical(base) else ABS_IDS
            i = self.pick(cands)
            uri = refuri.resolve(i, base) if not refuri.split(i)[0] else i
            if refuri.normalize(uri) not in self.uris:
                self.uris.add(refuri.normalize(uri))
                base = uri
                out['$id'] = i + ('#' if dialect != 'next' and self.chance(1, 12) else '')
                if self.switch and self.chance(1, 4):
                    dialect = self.pick(DIALECTS)
                    out['$schema'] = refschema.META[dialect]
                    if dialect == 'next':
                        out['$id'] = i
        if self.chance(1, 3) and (a := self.anchor(base)):
            out['$anchor'] = a
        if dialect != '2019-09' and self.dynamic and self.chance(1, 4) and (a := self.anchor(base)):
            out['$dynamicAnchor'] = a
        for _ in range(self.draw(st.integers(1, 3))):
            if depth > 0 and self.budget > 0:
                self.applicator(out, depth - 1, base, dialect)
        if self.chance(1, 3):
            self.decoy(out)
        if self.chance(1, 3):
            k = self.pick(['type', 'minimum', 'title', '$comment', 'required', 'maxItems', 'pattern'])
            out[k] = {'type': 'object', 'minimum': 1, 'title': 'x', '$comment': 'c', 'required': ['a'], 'maxItems': 3, 'pattern': '^a'}[k]
        if self.chance(1, 2):
            out = {k: out[k] for k in self.draw(st.permutations(list(out)))}
        return out

    def applicator(self, out, depth, base, dialect):
        def sub():
            return self.schema(depth, base, dialect)
        new = dialect != '2019-09'
        k = self.pick(['allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', 'properties', 'properties', 'patternProperties', 'additionalProperties',
                       'propertyNames', 'contains', 'items', 'prefix', 'additionalItems', '$defs', '$defs', 'unevaluatedItems', 'unevaluatedProperties', 'minContains'])
        if k in ('prefix', 'additionalItems'):
            k = 'prefixItems' if new else ('items' if k == 'prefix' else k)
            if k == 'items':
                out[k] = [sub() for _ in range(self.draw(st.integers(1, 2)))]
                return
        if k in refschema.COMMON_ARRAY or k == 'prefixItems':
            out[k] = [sub() for _ in range(self.draw(st.integers(1, 3)))]
        elif k in refschema.COMMON_OBJECT:
            names = self.draw(st.lists(name if k != 'patternProperties' else st.sampled_from(['^a', 'b$', '', 'é', '/', '~', '[0-9]']), min_size=1, max_size=2, unique=True))
            out[k] = {n: sub() for n in names}
        elif k == 'minContains':
            out[k] = 0
        else:
            out[k] = sub()

    def decoy(self, out):
        """Identifiers in data: not identifiers at all."""
        data = self.pick([{'$id': 'https://decoy.example/d'}, {'$anchor': 'decoy'}, {'$id': 'decoy', '$anchor': 'decoy'}, {'x': {'$id': 'decoy'}}, [{'$id': 'decoy'}],
                          {'properties': {'a': {'$id': 'decoy'}}}, {'$dynamicAnchor': 'decoy'}])
        k = self.pick(['const', 'enum', 'default', 'examples', 'x-unknown', 'definitions', 'dependencies', 'foo'])
        out[k] = [data] if k in ('enum', 'examples') else data


@st.composite
def identified(draw, depth=3, **kwargs):
    """{'dialect', 'uri': the retrieval URI or None, 'schema'}."""
    dialect = draw(st.sampled_from(DIALECTS))
    how = draw(st.sampled_from(['id', 'id', 'uri', 'uri', 'both', 'relative', 'none']))
    base = draw(st.sampled_from(ROOTS))
    uri, rid = None, None
    if how == 'id':
        rid = base
    elif how == 'uri':
        uri = base
    elif how == 'both':
        uri, rid = 'https://retrieved.example/x/y', base
    elif how == 'relative':
        uri = 'https://r.example/d/e/f'
        rid = draw(st.sampled_from(['g', '../h', './', '/i', '?j']))
        base = refuri.resolve(rid, uri)
    else:
        base = 'urn:uuid:00000000-0000-4000-8000-000000000000'     # stands for the one that is made up
    d = Draw(draw, dialect, base, **kwargs)
    doc = d.schema(depth, base, dialect, root=True, rooted_id=rid)
    return {'dialect': dialect, 'uri': uri, 'schema': doc}
