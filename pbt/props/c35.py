"""C35: catalogs by name, and the independence of catalogs, against a model of each catalog."""
import itertools

from hypothesis import strategies as st

from pbt.ref import refjson, refschema
from .common import Check, expect
from .schemas import DIALECTS

HERE = 'https://independent.example/'
NAMES = ['catalog', 'one', 'two', 'empty']
FORMATS = ['json-pointer', 'pbt-even', 'pbt-short']
_counter = itertools.count()
_ready = []


def validators():
    """Formats are registered once for all catalogs; enabling is by catalog."""
    if _ready:
        return
    from jschon.vocabulary.format import format_validator

    @format_validator('pbt-even')
    def even(value):
        if len(value) % 2:
            raise ValueError('odd')

    @format_validator('pbt-short')
    def short(value):
        if len(value) > 3:
            raise ValueError('long')
    _ready.append(True)


REFUSES = {'json-pointer': lambda s: s != '' and not s.startswith('/'), 'pbt-even': lambda s: len(s) % 2 == 1, 'pbt-short': lambda s: len(s) > 3}
TEXTS = ['', '/', 'a', 'ab', 'abcd', '/abc', '/abcd']


class Model:
    """What one catalog has been told."""

    def __init__(self, name, dialects):
        self.name, self.dialects = name, set(dialects)
        self.formats = set()
        self.sources = {}       # slot -> document number
        self.vocabularies = {}  # slot -> factor
        self.schemas = {}       # slot -> constant


@st.composite
def histories(draw):
    ops = [['make', draw(st.sampled_from(NAMES)), draw(st.lists(st.sampled_from(DIALECTS), min_size=1, max_size=2, unique=True))] for _ in range(2)]
    for _ in range(draw(st.integers(3, 10))):
        op = draw(st.sampled_from(['make', 'bare', 'bad', 'enable', 'enable', 'source', 'source', 'vocabulary', 'vocabulary', 'schema', 'schema', 'by name', 'by name', 'drop']))
        which, slot = draw(st.integers(0, 5)), draw(st.integers(0, 2))
        if op == 'make':
            ops.append([op, draw(st.sampled_from(NAMES)), draw(st.lists(st.sampled_from(DIALECTS), max_size=2, unique=True))])
        elif op in ('bare', 'bad'):
            ops.append([op, draw(st.sampled_from(NAMES)), draw(st.sampled_from([['2018-01'], ['2020-12', 'draft7'], [''], ['2019-09', '2019-9']]))])
        elif op == 'enable':
            ops.append([op, which, draw(st.lists(st.sampled_from(FORMATS), min_size=1, max_size=2, unique=True))])
        elif op == 'by name':
            ops.append([op, draw(st.sampled_from(NAMES + ['nobody'])), draw(st.sampled_from(FORMATS))])
        else:
            ops.append([op, which, slot, draw(st.integers(0, 3))])
    return {'ops': ops}


def history(case, note):
    from jschon import JSON, Catalog, JSONSchema, URI, create_catalog
    from jschon.catalog import Source
    from jschon.exc import CatalogError, JschonError
    from jschon.vocabulary import Keyword
    validators()
    n = next(_counter)
    # a catalog is kept under its name for good, so that names are used again in the next case
    names = {'catalog': 'catalog', 'one': 'pbt-one', 'two': 'PBT-One', 'empty': '', 'nobody': 'pbt-one '}
    catalogs = []           # (catalog, model), in order of creation
    latest = {}             # name -> (catalog, model)

    def made(cat, name, dialects):
        expect(type(cat) is Catalog and cat.name == names[name], '{}: {!r}', name, cat)
        pair = cat, Model(name, dialects)
        catalogs.append(pair)
        latest[name] = pair

    def source(k):
        class Served(Source):
            def __call__(self, relative_path):
                return {'number': k, 'path': relative_path}
        return Served()

    def keyword(k):
        class Times(Keyword):
            key = 'times'

            def evaluate(self, instance, result):
                if instance.type == 'number' and instance.value % k:
                    result.fail('no')
        return Times

    def meta(dialects):
        return URI(refschema.META[sorted(dialects)[0]])

    for step, (op, a, *args) in enumerate(case['ops']):
        what = f'{case["ops"][:step + 1]}'
        if op == 'make':
            if a == 'catalog':
                made(create_catalog(*args[0]), a, args[0])
            else:
                made(create_catalog(*args[0], name=names[a]), a, args[0])
        elif op == 'bare':
            made(Catalog() if a == 'catalog' else Catalog(names[a]), a, [])
        elif op == 'bad':
            try:
                create_catalog(*args[0], name=f'pbt-bad-{n}')
            except ValueError:
                pass
            else:
                expect(False, '{}: an unknown version was accepted', what)
        elif op == 'by name':
            try:
                schema = JSONSchema({'format': args[0], 'const': 'ab'} if a in latest and latest[a][1].dialects else {}, catalog=names[a], uri=URI(f'{HERE}{n}/named/{step}'),
                                    **({'metaschema_uri': meta(latest[a][1].dialects)} if a in latest and latest[a][1].dialects else {}))
            except JschonError as e:
                expect(a not in latest or not latest[a][1].dialects, '{}: {!r}', what, e)
                if a == 'nobody':
                    expect(isinstance(e, CatalogError), '{}: {!r}', what, e)
            else:
                if a not in latest:
                    expect(a != 'nobody', '{}: a catalog by an unknown name', what)
                    continue
                cat, m = latest[a]
                expect(schema.catalog is cat, '{}: in another catalog', what)
                if m.dialects:
                    for text in TEXTS:
                        want = text == 'ab' and not (args[0] in m.formats and REFUSES[args[0]](text))
                        expect(schema.evaluate(JSON(text)).valid is want, '{}: {!r}', what, text)
        else:
            cat, m = catalogs[a % len(catalogs)]
            if op == 'enable':
                cat.enable_formats(*args[0])
                m.formats |= set(args[0])
            elif op == 'source':
                cat.add_uri_source(URI(f'{HERE}s{args[0]}/'), source(args[1]))
                m.sources[args[0]] = args[1]
            elif op == 'vocabulary':
                cat.create_vocabulary(URI(f'{HERE}v{args[0]}'), keyword(args[1] + 2))
                m.vocabularies[args[0]] = args[1] + 2
            elif op == 'schema' and m.dialects:
                JSONSchema({'const': args[1], '$defs': {'a': {'const': [args[1]]}}}, catalog=cat, uri=URI(f'{HERE}{n}/k{args[0]}'), metaschema_uri=meta(m.dialects))
                m.schemas[args[0]] = args[1]
            elif op == 'drop' and args[0] in m.schemas:
                cat.del_schema(URI(f'{HERE}{n}/k{args[0]}'))
                del m.schemas[args[0]]
        # every catalog is as it was told, and no other
        for name in NAMES + ['nobody']:
            if name in latest:
                got = Catalog.get_catalog() if name == 'catalog' else Catalog.get_catalog(names[name])
                expect(got is latest[name][0], '{}: {} is another catalog', what, name)
            elif name == 'nobody':
                try:
                    Catalog.get_catalog(names[name])
                except CatalogError:
                    pass
                else:
                    expect(False, '{}: {} was never created', what, name)
        for c, (cat, m) in enumerate(catalogs):
            where = f'{what}: catalog {c}'
            for f in FORMATS:
                expect(cat.is_format_enabled(f) is (f in m.formats), '{}: format {}', where, f)
            for s in range(3):
                try:
                    got = cat.load_json(URI(f'{HERE}s{s}/x/y'))
                except CatalogError:
                    got = None
                expect(refjson.same(got, {'number': m.sources[s], 'path': 'x/y'} if s in m.sources else None), '{}: source {}: {}', where, s, got)
                try:
                    v = cat.get_vocabulary(URI(f'{HERE}v{s}'))
                except CatalogError:
                    expect(s not in m.vocabularies, '{}: no vocabulary {}', where, s)
                else:
                    expect(s in m.vocabularies and str(v.uri) == f'{HERE}v{s}' and list(v.kwclasses) == ['times'], '{}: vocabulary {}', where, s)
                try:
                    schema = cat.get_schema(URI(f'{HERE}{n}/k{s}'))
                except CatalogError:
                    expect(s not in m.schemas, '{}: no schema {}', where, s)
                else:
                    expect(s in m.schemas and schema.catalog is cat and schema.metaschema.catalog is cat, '{}: schema {}', where, s)
                    expect(schema.value['const'] == m.schemas[s], '{}: schema {}: {}', where, s, schema)
            for d in DIALECTS:
                try:
                    got = cat.get_metaschema(URI(refschema.META[d]))
                except JschonError:
                    expect(d not in m.dialects, '{}: no {}', where, d)
                else:
                    expect(d in m.dialects and got.catalog is cat, '{}: has {}', where, d)
    # schemas of equal documents behave as their catalogs were told
    for c, (cat, m) in enumerate(catalogs):
        where = f'{case["ops"]}: at the end, catalog {c}'
        if not m.dialects:
            continue
        d = sorted(m.dialects)[0]
        for f in FORMATS:
            schema = JSONSchema({'format': f}, catalog=cat, uri=URI(f'{HERE}{n}/f/{f}'), metaschema_uri=URI(refschema.META[d]))
            for text in TEXTS:
                expect(schema.evaluate(JSON(text)).valid is not (f in m.formats and REFUSES[f](text)), '{}: {} of {!r}', where, f, text)
        for s, k in m.vocabularies.items():
            if s in m.sources:
                continue

            class Metas(Source):
                def __call__(self, relative_path):
                    core = [v for v in cat.get_metaschema(URI(refschema.META[d])).value['$vocabulary']]
                    return {'$schema': refschema.META[d], '$id': f'{HERE}metas/{relative_path}', '$vocabulary': {**dict.fromkeys(core, True), f'{HERE}v{s}': True}}
            cat.add_uri_source(URI(f'{HERE}metas/'), Metas())
            schema = JSONSchema({'$schema': f'{HERE}metas/{s}', 'times': 1}, catalog=cat, uri=URI(f'{HERE}{n}/t/{s}'))
            expect(schema.metaschema.catalog is cat, '{}: metaschema of another catalog', where)
            for x in range(0, 13):
                expect(schema.evaluate(JSON(x)).valid is (x % k == 0), '{}: vocabulary {}: {} times {}', where, s, x, k)
    kinds = {k for _, m in catalogs for k in ('formats', 'sources', 'vocabularies', 'schemas') if getattr(m, k)}
    differ = sum(any(getattr(a[1], k) != getattr(b[1], k) for k in ('formats', 'sources', 'vocabularies', 'schemas')) for a, b in itertools.combinations(catalogs, 2))
    note.nontrivial(len(catalogs) > 1 and len(kinds) > 1 and differ > 0)
    note.label('catalogs:%d' % len(catalogs), 'replaced' if len(latest) < len(catalogs) else 'not replaced')


def many(case, note):
    from jschon import Catalog, URI
    from jschon.catalog import Source

    class Served(Source):
        def __init__(self, i):
            super().__init__()
            self.i = i

        def __call__(self, relative_path):
            return self.i
    cats = []
    for i in range(case['catalogs']):
        cats.append(Catalog(f'pbt-many-{i % case["names"]}'))
        for j in range(case['sources']):
            cats[-1].add_uri_source(URI(f'{HERE}many/{j}/'), Served([i, j]))
    for i, cat in enumerate(cats):
        last = max(k for k in range(len(cats)) if k % case['names'] == i % case['names'])
        expect(Catalog.get_catalog(cat.name) is cats[last], 'the name of catalog {} of {} gives another', i, len(cats))
        for j in range(case['sources']):
            got = cat.load_json(URI(f'{HERE}many/{j}/x'))
            expect(got == [i, j], 'catalog {}, source {}: {}', i, j, got)
    note.nontrivial(len(cats) > 20)


CHECKS = [
    Check('many', lambda: st.fixed_dictionaries({'catalogs': st.integers(1, 150), 'names': st.integers(1, 150), 'sources': st.integers(1, 40)}), many, 48,
          rule='up to 150 catalogs, each with up to 40 sources; non-trivial with more than 20'),
    Check('histories', histories, history, 600,
          rule='histories over two to eight catalogs of equal and different names: creating, replacing, enabling formats, registering sources and vocabularies, caching and deleting schemas under the same URIs, '
               'by object or name; all catalogs compared with the model after every step; non-trivial when catalogs differ in at least one kind of content'),
]
