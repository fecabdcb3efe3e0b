"""C34: histories of serving, creating, fetching and using metaschemas, against a model of what is cached."""
import copy
import itertools

from hypothesis import strategies as st

from pbt.ref import refschema
from .common import Check, expect
from .schemas import DIALECTS

HERE = 'https://metaschemas.example/'
V = 'https://json-schema.org/draft/%s/vocab/%s'
_cat = {}
_counter = itertools.count()
SLOTS = 3
DEFAULTS = ['validation', 'meta-data']
NAMES = ['title', 'description', '$comment', 'x-note']


def catalog():
    if not _cat:
        from jschon import URI, create_catalog
        from jschon.catalog import Source
        docs = {}

        class Served(Source):
            def __call__(self, relative_path):
                if relative_path not in docs:
                    raise FileNotFoundError(relative_path)
                doc = docs[relative_path]
                if isinstance(doc, Exception):
                    raise doc
                return copy.deepcopy(doc)

        cat = create_catalog(*DIALECTS, name='pbt-metaschemas')
        cat.add_uri_source(URI(HERE), Served())
        _cat.update(catalog=cat, docs=docs)
    return _cat['catalog'], _cat['docs']


def document(spec, n, d):
    """The JSON document for a slot."""
    kind = spec['kind']
    if kind == 'junk':
        return copy.deepcopy(spec['junk'])
    if kind == 'failing':
        return ValueError('not JSON')
    if kind == 'empty':
        return {}
    i = spec['slot']
    doc = {'$schema': refschema.META[d] if spec['schema'] is None else f'{HERE}{n}/{spec["schema"]}', '$id': f'{HERE}{n}/{i}'}
    if kind != 'plain':
        doc['$vocabulary'] = {V % (d, x): True for x in ['core'] + spec['vocabularies']}
        if spec['unknown'] is not None:
            doc['$vocabulary']['https://unknown.example/' + str(i)] = spec['unknown']
    for x in spec['has']:
        doc[x] = 'text'
    if spec['needs']:
        doc['required'] = spec['needs']
    if spec['odd'] == 'value':
        doc['minLength'] = -1
    elif spec['odd'] == 'deep':
        doc['properties'] = {'a': {'allOf': [{'type': 'nothing'}]}}
    elif spec['odd'] == 'type':
        doc['properties'] = 5
    elif spec['odd'] == 'title':
        doc['title'] = 5
    if spec['embedded']:
        doc['$defs'] = {'inner': {'$id': f'{HERE}{n}/{i}/inner', 'type': 'object'}}
    return doc


class Model:
    """Which metaschemas are cached, and what they are like."""

    def __init__(self):
        self.served = [None] * SLOTS
        self.cached = [None] * SLOTS

    def create(self, i, defaults=False):
        """Whether creation succeeds; None when the metaschemas refer to one another in a circle."""
        saved = list(self.cached)
        ok = self._create(i, (), defaults)
        if ok is not True:
            self.cached[i] = saved[i]
        return ok

    def _create(self, i, stack, defaults=False):
        s = self.served[i]
        if s is None or s['kind'] in ('junk', 'failing') or s['kind'] == 'meta' and s['unknown'] is True:
            return False
        if s['kind'] != 'meta':
            if not defaults:
                return False
            # no vocabulary declaration: the given ones
            s = {**s, 'vocabularies': DEFAULTS}
            if s['kind'] == 'empty':
                s.update(schema=None, odd=None, has=[], needs=[], embedded=False)
        j = s['schema']
        if j == i:
            # judged by itself
            over = s
            meta_understands = 'validation' in s['vocabularies']
        elif j is None:
            if s['odd'] is not None:
                return False
            self.cached[i] = (s, True)
            return True
        else:
            if i in stack or j in stack:
                return None
            if self.cached[j] is None:
                ok = self._create(j, stack + (i,))
                if ok is not True:
                    return ok
            over, meta_understands = self.cached[j]
        if over['odd'] == 'type' or over['odd'] is not None and over is not s:
            return None     # an odd metaschema judged by itself or by an odd one: what it asserts is nobody's promise
        if over is s and s['odd'] in ('value', 'deep', 'type'):
            return None
        # the applied constraints are those of the metaschema's keywords alone
        if meta_understands and not all(x in s['has'] or x == 'title' and s['odd'] == 'title' for x in over['needs']):
            return False
        # how the keywords of this document are understood when it judges others
        self.cached[i] = (s, self.understands(s))
        return True

    def understands(self, s):
        """Whether its own "required" has effect: its metaschema has the validation vocabulary."""
        j = s['schema']
        if j is None:
            return True
        if j == s['slot']:
            return 'validation' in s['vocabularies']
        return 'validation' in self.cached[j][0]['vocabularies']

    def get(self, i):
        if self.cached[i] is not None:
            return True
        return self.create(i)


@st.composite
def slots(draw, i, plain=True):
    odd = draw(st.sampled_from([None] * 6 + ['value', 'deep', 'type', 'title']))
    return {'slot': i, 'kind': draw(st.sampled_from(['meta'] * 12 + ['junk', 'failing', 'plain', 'plain', 'plain', 'empty'])), 'junk': draw(st.sampled_from([None, True, False, 0, 'x', [], [{}], 1.5])),
            'schema': draw(st.sampled_from([None, None, None, i] + [x for x in range(SLOTS) if x != i])),
            'vocabularies': draw(st.lists(st.sampled_from(['validation', 'validation', 'applicator', 'meta-data']), max_size=3, unique=True)),
            'unknown': draw(st.sampled_from([None] * 6 + [False, True])), 'has': draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True)),
            'needs': draw(st.lists(st.sampled_from(NAMES), max_size=1, unique=True)) if draw(st.booleans()) else [], 'odd': odd, 'embedded': draw(st.integers(0, 3)) == 0}


@st.composite
def histories(draw):
    ops = []
    for i in range(SLOTS):
        if draw(st.integers(0, 4)):
            ops.append(['serve', i, draw(slots(i))])
    for _ in range(draw(st.integers(2, 9))):
        i = draw(st.integers(0, SLOTS - 1))
        op = draw(st.sampled_from(['serve', 'get', 'get', 'create', 'create', 'use', 'use', 'inner', 'withdraw']))
        ops.append([op, i, draw(slots(i)) if op == 'serve' else draw(st.booleans())])
    return {'dialect': draw(st.sampled_from(DIALECTS)), 'ops': ops}


def history(case, note):
    from jschon import JSON, JSONSchema, URI
    from jschon.exc import CatalogError, JschonError
    from jschon.vocabulary import Metaschema
    cat, docs = catalog()
    d = case['dialect']
    n = next(_counter)
    m = Model()
    found = {}          # slot -> the metaschema object cached
    uri = [URI(f'{HERE}{n}/{i}') for i in range(SLOTS)]
    refused = replaced = 0
    try:
        with cat.cache() as cid:
            for step, (op, i, arg) in enumerate(case['ops']):
                what = f'{case["ops"][:step + 1]} in {d}'
                if op == 'serve':
                    m.served[i] = arg
                    docs[f'{n}/{i}'] = document(arg, n, d)
                    continue
                if op == 'withdraw':
                    m.served[i] = None
                    docs.pop(f'{n}/{i}', None)
                    continue
                before = list(m.cached)
                if op == 'inner':
                    if m.cached[i] is not None and m.cached[i][0]['embedded']:
                        try:
                            cat.get_metaschema(URI(f'{HERE}{n}/{i}/inner'))
                        except CatalogError:
                            pass
                        else:
                            expect(False, '{}: an embedded schema is taken for a metaschema', what)
                    continue
                want = m.create(i, arg) if op == 'create' else m.get(i)
                if want is None:
                    note.label('unspecified')
                    return
                try:
                    if op == 'create':
                        if arg:
                            got = cat.create_metaschema(uri[i], URI(V % (d, 'core')), *(URI(V % (d, x)) for x in DEFAULTS), metaschema_uri=URI(refschema.META[d]))
                        else:
                            got = cat.create_metaschema(uri[i])
                    elif op == 'get':
                        got = cat.get_metaschema(uri[i])
                    else:
                        doc = {'$schema': str(uri[i]), 'minLength': 2, 'allOf': [{'maxLength': 4}, {'not': {}}] if arg else [{'maxLength': 4}]}
                        schema = JSONSchema(doc, catalog=cat, cacheid=cid, uri=URI(f'https://users.example/{n}/{step}'))
                        got = schema.metaschema
                except JschonError as e:
                    expect(want is False, '{}: refused: {}', what, e)
                    expect(op == 'use' or isinstance(e, CatalogError) or m.served[i] is not None, '{}: {!r}', what, e)
                    refused += 1
                    if op == 'use':
                        try:
                            cat.get_schema(URI(f'https://users.example/{n}/{step}'), cacheid=cid)
                        except JschonError:
                            pass
                        else:
                            expect(False, '{}: the refused schema is cached', what)
                else:
                    expect(want is True, '{}: accepted', what)
                    expect(isinstance(got, Metaschema) and got.catalog is cat and str(got.uri) == str(uri[i]), '{}: gives {!r}', what, got)
                    if op != 'create' and before[i] is not None:
                        expect(got is found[i], '{}: another metaschema than the cached one', what)
                    elif i in found:
                        expect(got is not found[i], '{}: the old one', what)
                        replaced += 1
                    found[i] = got
                    expect(got.validate().valid, '{}: an invalid metaschema', what)
                    vocabularies = m.cached[i][0]['vocabularies']
                    classes = {'minLength': 'validation', 'allOf': 'applicator', 'title': 'meta-data', '$ref': 'core'}
                    if op == 'use':
                        for value in ('a', 'abc', 'abcdef', 7):
                            bad = 'validation' in vocabularies and value == 'a'
                            if 'applicator' in vocabularies:
                                bad = bad or arg or 'validation' in vocabularies and value == 'abcdef'
                            result = schema.evaluate(JSON(value))
                            expect(result.valid is not bad, '{}: {!r} under {}', what, value, vocabularies)
                # all that the model has cached is cached, and nothing else
                for k in range(SLOTS):
                    if m.cached[k] is None:
                        continue
                    now = cat.get_metaschema(uri[k])
                    if k in found and (m.cached[k] is before[k] or k == i):
                        expect(now is found[k], '{}: {} is another metaschema now', what, k)
                    found[k] = now
                    expect(refschema.refjson.same(now.value, document(m.cached[k][0], n, d)), '{}: {} is {}', what, k, now.value)
        note.nontrivial(refused > 0 and any(m.cached) or replaced > 0)
        note.label('refused:%d' % min(refused, 3), 'replaced:%d' % min(replaced, 3))
    finally:
        for i in range(SLOTS):
            docs.pop(f'{n}/{i}', None)


CHECKS = [
    Check('histories', histories, history, 3200,
          rule='histories of serving, changing, creating, fetching and using up to three metaschemas, with or without default vocabularies, described by the standard one, by themselves or by one another, with faults of every kind; '
               'non-trivial when some are refused and others cached, or one is replaced'),
]
