"""C17: schema caches against a map per catalog and cache identifier."""
import contextlib
import itertools

from hypothesis import strategies as st

from .common import Check, expect, raises

# identifiers that schemas are stored under; the last few are spellings of earlier ones
URIS = ['https://x.example/a', 'https://x.example/b', 'https://x.example/a/b', 'https://x.example/', 'urn:x:a', 'https://x.example/a?q', 'https://x.example/a%7E',
        'HTTPS://x.example/a', 'https://X.example/b', 'https://x.example/z/../a/b', 'https://x.example/./', 'https://x.example/a%7e']
LOADABLE = ['https://s.example/p', 'https://s.example/q', 'https://s.example/d/r', 'https://s.example/id', 'https://s.example/d/refs', 'https://s.example/bool']
FAILING = ['https://s.example/missing', 'https://s.example/list', 'https://s.example/broken', 'https://s.example/string', 'https://other.example/x',
           'https://s.example/badref', 'https://s.example/badref2', 'https://s.example/badid']
FRAGMENTS = ['', '', '', '', '#', '#/$defs/x', '#anchor', '#/$defs/none', '#nowhere', '#/const', '#/$defs', '#/$defs/x/$defs/y']
# stored as they are, whatever becomes of the schema without the fragment
PARTS = ['https://x.example/a#f', 'https://x.example/b#f', 'https://X.example/a#f', 'https://x.example/a#/part', 'urn:x:a#f', 'https://s.example/p#f']
META = 'https://json-schema.org/draft/2020-12/schema'

uri = st.one_of(st.sampled_from(URIS[:3]), st.sampled_from(URIS))
where = st.sampled_from([0, 0, 1, 2, 3, 4])          # which (catalog, cache) pair
op = st.one_of(
    st.tuples(st.just('new'), where, uri, st.sampled_from(['uri', 'uri', 'id', 'both', 'nested', 'bool', 'false'])),
    st.tuples(st.just('new'), where, uri, st.sampled_from(['uri', 'id'])),
    st.tuples(st.just('ref'), where, st.one_of(uri, st.sampled_from(LOADABLE)), st.just(None)),
    st.tuples(st.just('add'), where, uri, st.integers(0, 9)),
    st.tuples(st.just('add part'), where, st.sampled_from(PARTS), st.integers(0, 9)),
    st.tuples(st.just('del part'), where, st.sampled_from(PARTS), st.just(None)),
    st.tuples(st.just('del'), where, st.one_of(uri, uri, st.sampled_from(LOADABLE)), st.just(None)),
    st.tuples(st.just('rename'), where, st.one_of(uri, st.none()), st.integers(0, 9)),
    st.tuples(st.just('get'), where, st.one_of(uri, uri, st.sampled_from(LOADABLE), st.sampled_from(LOADABLE + FAILING)), st.sampled_from(FRAGMENTS)),
    st.tuples(st.just('get'), where, st.one_of(uri, st.sampled_from(LOADABLE)), st.just('')),
    st.tuples(st.just('bad'), where, uri, st.sampled_from(['type', 'ref', 'id', 'list', 'anchor', 'meta'])),
    st.tuples(st.just('scope'), where, st.booleans(), st.just(None)),
    st.tuples(st.just('leave'), where, st.booleans(), st.just(None)),
    st.tuples(st.just('again'), where, st.booleans(), st.just(None)),
).map(list)
history = st.lists(op, min_size=2, max_size=16)

counter = itertools.count()
_cats = []


def catalogs():
    if not _cats:
        from jschon import create_catalog
        _cats.extend(create_catalog('2020-12', name=f'pbt-c17-{i}') for i in (0, 1))
    return _cats


SERVED = {
    'p': {'const': 'p', '$defs': {'x': {'$anchor': 'anchor', '$defs': {'y': True}}}},
    'q': {'$ref': 'p'},
    'd/r': {'$id': 'https://s.example/d/r', '$ref': '../q', '$anchor': 'anchor', '$defs': {'x': {}}},
    'id': {'$id': 'https://s.example/id', '$defs': {'x': {'$id': 'inner', 'const': 'inner'}}},
    'd/refs': {'allOf': [{'$ref': '../p'}], 'properties': {'n': {'$ref': '#'}}, '$id': 'https://s.example/d/refs'},
    'bool': False,
    'list': [1],
    'string': 'no schema',
    'badref': {'$ref': 'missing'},
    'badref2': {'$ref': 'badref', '$defs': {'x': {'$ref': 'p'}}},
    'badid': {'$id': 'https://s.example/badid', '$ref': '#nope'},
}
SERVED = {k: {**v, '$schema': META} if isinstance(v, dict) else v for k, v in SERVED.items()}
NEEDS = {'q': ['p'], 'd/r': ['q', 'p'], 'd/refs': ['p']}


class Stop(Exception):
    pass


class Place:
    """The model of one cache: entries by URI, and what it may still load."""

    def __init__(self, cat, cacheid):
        self.cat, self.cacheid = cat, cacheid
        self.entries = {}
        self.parts = {}
        self.scope = None


def run(case, note):
    from jschon import JSON, JSONSchema, URI
    from jschon.catalog import Source
    from jschon.exc import CatalogError, JschonError
    cats = catalogs()
    n = next(counter)
    loads = []

    class Counting(Source):
        def __call__(self, relative_path):
            loads.append(relative_path)
            if relative_path in SERVED:
                return SERVED[relative_path]
            if relative_path == 'broken':
                raise ValueError('broken')
            raise FileNotFoundError(relative_path)

    for c in cats:
        c.add_uri_source(URI('https://s.example/'), Counting())
    # the same identifiers in both catalogs, and the default cache of the first
    places = [Place(cats[0], f'{n}-one'), Place(cats[0], f'{n}-two'), Place(cats[1], f'{n}-one'), Place(cats[1], (n, 2)), Place(cats[0], 'default')]
    made = []           # every schema made, with its constant
    stored_default = set()
    numbers = itertools.count()

    def put(p, u, schema):
        p.entries[URI(u)] = schema
        if p.cacheid == 'default':
            stored_default.add(u)

    def check_place(p):
        del loads[:]
        for u in URIS:
            look(p, u)
        for u, s in p.parts.items():
            expect(p.cat.get_schema(u, cacheid=p.cacheid) is s, '{} in {!r} gave another schema', u, p.cacheid)
        expect(not loads, 'looking up what no source has loaded {}', loads)

    def look(p, u):
        want = p.entries.get(URI(u))
        if want is None:
            with raises(CatalogError, f'{u!r} in {p.cacheid!r}'):
                p.cat.get_schema(URI(u), cacheid=p.cacheid)
        else:
            got = p.cat.get_schema(URI(u), cacheid=p.cacheid)
            expect(got is want, '{!r} in {!r} gave another schema', u, p.cacheid)

    def learn(p, name):
        """The model of loading a served document into a cache."""
        u = 'https://s.example/' + name
        for k in [name] + NEEDS.get(name, []):
            k = 'https://s.example/' + k
            if URI(k) not in p.entries:
                want_loads.append(k[len('https://s.example/'):])
                newly.append(k)
        return u

    try:
        for kind, w, a, b in case:
            p = places[w]
            cat, cid = p.cat, p.cacheid
            del loads[:]
            if kind == 'new':
                const = next(numbers)
                kwargs = dict(catalog=cat, cacheid=cid, metaschema_uri=URI(META))
                fresh = URI(f'https://fresh.example/{const}')
                if b == 'uri':
                    s = JSONSchema({'const': const, '$defs': {'x': {'$defs': {'y': True}}}}, uri=URI(a), **kwargs)
                elif b == 'id':
                    s = JSONSchema({'const': const, '$id': a}, **kwargs)
                elif b == 'both':
                    s = JSONSchema({'const': const, '$id': a}, uri=fresh, **kwargs)
                    with raises(CatalogError, 'the URI that "$id" overrides'):
                        cat.get_schema(fresh, cacheid=cid)
                elif b == 'nested':
                    s = JSONSchema({'const': const, '$defs': {'x': {'$id': a, 'const': const}}}, uri=fresh, **kwargs)
                    put(p, str(fresh), s)
                    s = s['$defs']['x']
                else:
                    s = JSONSchema(b == 'bool', uri=URI(a), **kwargs)
                made.append((s, const, p, b in ('uri', 'id', 'both', 'nested')))
                put(p, a, s)
                expect(s.uri == URI(a), 'uri of the new schema: {}', s.uri)
            elif kind == 'add' and made:
                # any schema, under any URI, in any cache: also one made for another cache
                s = made[b % len(made)][0]
                cat.add_schema(URI(a), s, cacheid=cid)
                put(p, a, s)
            elif kind == 'add part' and made:
                s = made[b % len(made)][0]
                cat.add_schema(URI(a), s, cacheid=cid)
                p.parts[URI(a)] = s
            elif kind == 'del part':
                cat.del_schema(URI(a), cacheid=cid)
                p.parts.pop(URI(a), None)
            elif kind == 'del':
                cat.del_schema(URI(a), cacheid=cid)
                p.entries.pop(URI(a), None)
            elif kind == 'rename' and made:
                s, const, home, _ = made[b % len(made)]
                if home.entries is not p.entries and not any(x is home for x in places):
                    continue
                old = s.uri
                if old is not None and home.entries.get(old) is s and (a is None or old != URI(a)):
                    del home.entries[old]
                s.uri = None if a is None else URI(a)
                if a is not None and not (old is not None and old == URI(a)):
                    put(home, a, s)
                p = home
            elif kind == 'ref':
                want_loads, newly = [], []
                target = URI(a)
                if a in LOADABLE:
                    learn(p, a[len('https://s.example/'):]) if target not in p.entries else None
                elif target not in p.entries:
                    with raises(CatalogError, f'a reference to {a!r}'):
                        JSONSchema({'$ref': a}, catalog=cat, cacheid=cid, metaschema_uri=URI(META))
                    expect(not loads, 'loaded {}', loads)
                    check_place(p)
                    continue
                s = JSONSchema({'$ref': a}, catalog=cat, cacheid=cid, metaschema_uri=URI(META))
                expect(sorted(loads) == sorted(want_loads), 'a reference to {!r} loaded {}, not {}', a, loads, want_loads)
                for k in newly:
                    put(p, k, cat.get_schema(URI(k), cacheid=cid))
                t = p.entries[target]
                for x in ['p', 'inner', len(made), 0, 1]:
                    v = JSON(x)
                    if a not in LOADABLE or a.endswith(('/p', '/q', '/r')):
                        want = t.data if isinstance(t.data, bool) else t.evaluate(v).valid
                        expect(s.evaluate(v).valid is want, 'a reference to {!r} does not do what the schema stored there does', a)
                note.label('reference')
            elif kind == 'get':
                want_loads, newly = [], []
                target = URI(a)
                text = a + b
                exact = p.entries.get(URI(text))
                have = target in p.entries
                if a in FAILING and not have:
                    with raises(JschonError if 'badref' in a or 'badid' in a else CatalogError, f'getting {text!r}'):
                        cat.get_schema(URI(text), cacheid=cid)
                    # twice: a failure leaves nothing behind
                    with raises(JschonError if 'badref' in a or 'badid' in a else CatalogError, f'getting {text!r} again'):
                        cat.get_schema(URI(text), cacheid=cid)
                    if URI('https://s.example/p') not in p.entries:
                        del loads[:]
                        s = cat.get_schema(URI('https://s.example/p'), cacheid=cid)
                        put(p, 'https://s.example/p', s)
                    note.label('failed load')
                    check_place(p)
                    continue
                if a in LOADABLE and not have:
                    learn(p, a[len('https://s.example/'):])
                if not have and a not in LOADABLE:
                    with raises(CatalogError, f'getting {text!r}'):
                        cat.get_schema(URI(text), cacheid=cid)
                    expect(not loads, 'loaded {}', loads)
                    continue
                # what the fragment designates in a document made above or served
                def locate(root):
                    if b in ('', '#'):
                        return root
                    if b.startswith('#/'):
                        rel = b[2:].split('/')
                    else:
                        return None
                    for k in rel:
                        if root.type != 'object' or k not in root.data:
                            return None
                        root = root.data[k]
                    return root if isinstance(root, JSONSchema) else None

                if not have:
                    root = cat.get_schema(target, cacheid=cid)
                    expect(sorted(loads) == sorted(want_loads), 'getting {!r} loaded {}, not {}', a, loads, want_loads)
                    for k in newly:
                        s = cat.get_schema(URI(k), cacheid=cid)
                        put(p, k, s)
                        note.label('loaded')
                    expect(root is p.entries[target], 'loading {!r} returned another schema than it stored', a)
                    note.nontrivial()
                    del loads[:]
                root = p.entries[target]
                if b == '#anchor' and a in LOADABLE:
                    continue        # deleting a document does not delete its anchors: left to C18
                want = locate(root)
                if want is None:
                    with raises(CatalogError, f'getting {text!r}'):
                        cat.get_schema(URI(text), cacheid=cid)
                else:
                    got = cat.get_schema(URI(text), cacheid=cid)
                    expect(got is want, 'getting {!r} gave another schema', text)
                expect(not loads, 'getting {!r} again loaded {}', text, loads)
            elif kind == 'bad':
                kwargs = dict(catalog=cat, cacheid=cid, metaschema_uri=URI(META))
                doc = {'type': 'no', 'ref': {'$id': a, '$ref': '#nope', '$defs': {'x': {'$id': 'sub', '$anchor': 'q'}}}, 'id': {'$id': a, '$defs': {'x': {'$id': 'https://y.example/#f'}}},
                       'list': [], 'anchor': {'$id': a, '$defs': {'x': {'$ref': 'https://x.example/nowhere'}}}, 'meta': {'$id': a, '$schema': 'https://x.example/no-meta'}}[b]
                with raises((JschonError, TypeError), f'making a bad schema of {a!r}'):
                    JSONSchema(doc, uri=URI(a), **kwargs)
                note.label('refused schema')
                note.nontrivial(bool(p.entries))
            elif kind == 'scope' and cid != 'default' and p.scope is None and not p.entries:
                p.scope = cat.cache(cid)
                try:
                    got = p.scope.__enter__()
                except CatalogError:
                    # in use before: once something was stored under it
                    p.scope = None
                    expect(hasattr(p, 'used'), 'a cache scope under an unused identifier was refused')
                    continue
                expect(got == cid, 'the scope gave {!r}, not {!r}', got, cid)
                note.label('scope')
                note.nontrivial()
            elif kind == 'leave' and p.scope is not None:
                scope, p.scope = p.scope, None
                if a:
                    with raises(Stop, 'leaving a scope by an exception'):
                        try:
                            raise Stop()
                        except Stop as e:
                            if not scope.__exit__(Stop, e, e.__traceback__):
                                raise
                else:
                    scope.__exit__(None, None, None)
                p.entries.clear()
                p.parts.clear()
                if hasattr(p, 'used'):
                    del p.used
                # what was made here stays here in name only
                made = [m for m in made if m[2] is not p]
                check_place(p)
                continue
            elif kind == 'again' and (p.scope is not None or (p.entries and cid != 'default')):
                with raises(CatalogError, 'a second scope under an identifier in use'):
                    with cat.cache(cid):
                        pass
                note.label('second scope')
            if p.entries or p.parts:
                p.used = True
            check_place(p)
        for p in places:
            check_place(p)
            # what one cache holds is nowhere else, its subschemas neither
            for u in URIS[:4]:
                if URI(u) not in p.entries:
                    for f in ('#', '#/$defs/x'):
                        with raises(CatalogError, f'{u + f!r} in {p.cacheid!r}'):
                            p.cat.get_schema(URI(u + f), cacheid=p.cacheid)
        note.nontrivial(sum(1 for p in places if p.entries) > 1)
    finally:
        for p in places:
            if p.scope is not None:
                p.scope.__exit__(None, None, None)
        for p in places:
            if p.cacheid == 'default':
                for u in list(p.entries) + [URI(x) for x in URIS] + [URI(x) for x in stored_default] + [URI(x) for x in PARTS]:
                    p.cat.del_schema(u, cacheid='default')
                for u in [x + f for x in LOADABLE for f in ('', '#anchor')] + ['https://s.example/inner']:
                    p.cat.del_schema(URI(u), cacheid='default')


# identifiers a caller may choose for a scope, None for any
NAMES = [None, 0, '', (), False, 0.0, frozenset(), b'', 'x', ('x', 1), -1, 'default', '__meta__']


def fresh_scope(case, note):
    """cache() with or without an identifier; nested, and left in order."""
    from jschon import JSONSchema, URI
    from jschon.exc import CatalogError
    cat = catalogs()[0]
    ids = []
    note.nontrivial(len(case) > 1)
    u = URI('https://x.example/f')
    JSONSchema({}, catalog=cat, uri=u.copy(path='/default'), metaschema_uri=URI(META))
    case = [c for c in case if c[1] is None or c[1] < len(NAMES)]
    stored = []
    with contextlib.ExitStack() as stack:
        for i, (store, name) in enumerate(case):
            if name is None or NAMES[name] is None:
                cid = stack.enter_context(cat.cache())
            elif NAMES[name] in ids + ['default', '__meta__']:
                with raises(CatalogError, f'the identifier {NAMES[name]!r} in use'):
                    with cat.cache(NAMES[name]):
                        pass
                continue
            else:
                cid = stack.enter_context(cat.cache(NAMES[name]))
                expect(cid == NAMES[name] and type(cid) is type(NAMES[name]), 'the scope gave {!r}, not {!r}', cid, NAMES[name])
                note.label('named')
            expect(cid not in ids, 'the identifier {!r} was given twice', cid)
            ids.append(cid)
            stored.append(i if store else None)
            with raises(CatalogError, 'a new scope is empty'):
                cat.get_schema(u, cacheid=cid)
            if store:
                s = JSONSchema({'const': i}, catalog=cat, cacheid=cid, uri=u, metaschema_uri=URI(META))
                expect(cat.get_schema(u, cacheid=cid) is s, 'not found in its scope')
            for j, c in enumerate(ids):
                if stored[j] is not None:
                    expect(cat.get_schema(u, cacheid=c)['const'] == stored[j], 'scope {} was disturbed', j)
                with raises(CatalogError, 'an identifier in use'):
                    with cat.cache(c):
                        pass
    for c in ids:
        with raises(CatalogError, 'a scope that was left'):
            cat.get_schema(u, cacheid=c)


def many(case, note):
    """As many schemas as a long-running program may hold."""
    from jschon import JSONSchema, URI
    from jschon.catalog import Source
    cat = catalogs()[0]
    loads = []

    class Numbered(Source):
        def __call__(self, relative_path):
            loads.append(relative_path)
            return {'const': int(relative_path), '$schema': META}
    cat.add_uri_source(URI('https://many.example/'), Numbered())
    meta = URI(META)
    with cat.cache() as cid, cat.cache() as other:
        made = [JSONSchema({'const': i}, catalog=cat, cacheid=cid, uri=URI(f'https://x.example/many/{i}'), metaschema_uri=meta) for i in range(case['made'])]
        loaded = [cat.get_schema(URI(f'https://many.example/{i}'), cacheid=cid) for i in range(case['loaded'])]
        elsewhere = [cat.get_schema(URI(f'https://many.example/{i}'), cacheid=other) for i in range(case['loaded'] // 2)]
        anonymous = [JSONSchema({'const': i}, catalog=cat, cacheid=cid, metaschema_uri=meta) for i in range(case['made'] // 3)]
        for _ in range(2):
            for i, s in enumerate(made):
                expect(cat.get_schema(URI(f'https://x.example/many/{i}'), cacheid=cid) is s, 'number {} of {} schemas is another', i, len(made))
            for i, s in enumerate(loaded):
                expect(cat.get_schema(URI(f'https://many.example/{i}'), cacheid=cid) is s, 'number {} of {} loaded schemas is another', i, len(loaded))
            for i, s in enumerate(elsewhere):
                expect(cat.get_schema(URI(f'https://many.example/{i}'), cacheid=other) is s, 'number {} of {} schemas loaded into another cache is another', i, len(elsewhere))
            for s in anonymous:
                expect(cat.get_schema(s.uri, cacheid=cid) is s, 'the schema of {} is another', s.uri)
        expect(len(loads) == len(loaded) + len(elsewhere), '{} documents were loaded, {} and {} asked for', len(loads), len(loaded), len(elsewhere))
    note.nontrivial(len(made) + len(loaded) > 100)


CHECKS = [
    Check('history', lambda: history, run, 6000,
          rule='histories of making, adding, renaming, deleting and fetching schemas, references, refused schemas and cache scopes over two catalogs and four caches, all lookups checked '
               'after every step; non-trivial when a document is loaded, a scope is used, or two caches hold entries'),
    Check('many', lambda: st.fixed_dictionaries({'made': st.integers(0, 400), 'loaded': st.integers(0, 300)}), many, 32,
          rule='hundreds of schemas in one cache, made or loaded, fetched twice; non-trivial with more than 100'),
    Check('scopes', lambda: st.lists(st.tuples(st.booleans(), st.one_of(st.none(), st.integers(0, len(NAMES) - 1))).map(list), min_size=1, max_size=6), fresh_scope, 600,
          rule='nested cache scopes, anonymous or under identifiers of any kind; non-trivial with two or more'),
]
