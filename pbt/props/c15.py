from hypothesis import strategies as st

from pbt.ref import refuri
from .common import Check, expect, raises

SEGS = ['a', 'b', 'ab', 'c.json', 'a-b', '%20', 'A']
ROOTS = ['http://h', 'https://h', 'http://h.x', 'file:', 'http://h:81', 'x:', 'http://u@h']
seg = st.sampled_from(SEGS[:3] + SEGS)


@st.composite
def base(draw):
    root = draw(st.sampled_from(ROOTS[:2] + ROOTS))
    n = draw(st.integers(0, 3))
    return root + '/' + ''.join(draw(seg) + '/' for _ in range(n))


@st.composite
def target(draw, bases):
    """A URI under, at, just beside or far from a base."""
    how = draw(st.sampled_from(['under', 'under', 'under', 'again', 'at', 'beside', 'cut', 'other', 'urn']))
    b = draw(st.sampled_from(bases)) if bases else draw(base())
    if b is None or not isinstance(b, str) or refuri.normalize(b) != b:
        b = draw(base())
    if how == 'at':
        u = b
    elif how == 'under':
        u = b + '/'.join(draw(st.lists(seg, min_size=1, max_size=3)))
    elif how == 'again':
        # the base, or a part of it, comes again in the remainder
        u = b + draw(st.sampled_from(['', 'a/', 'x'])) + draw(st.sampled_from([b, b, b.split('//')[-1], b.split(':', 1)[1]])) + draw(seg)
        if refuri.normalize(u) != u:
            u = b
    elif how == 'beside':
        u = b[:-1] + draw(st.sampled_from(['b', '-x', '.json', 'a/b', '/'])) if b.count('/') > 3 else b + '/a'
    elif how == 'cut':
        u = b[:-1]
        if not refuri.split(u)[2] or u.endswith(':'):
            u = b
    elif how == 'other':
        u = draw(base()) + draw(seg)
    else:
        u = draw(st.sampled_from(['urn:a:b', 'tag:x', 'urn:uuid:00000000-0000-0000-0000-000000000000']))
    if draw(st.integers(0, 7)) == 0:
        u += draw(st.sampled_from(['?q', '?', '?a/b']))
    return u


BAD_BASES = ['', 'a/', '/a/', '//h/a/', 'http://h/a', 'http://h', 'http://h/a/#', 'http://h/a/#f', 'HTTP://h/a/', 'http://H/a/',
             'http://h/a/../b/', 'http://h/./', 'http://h/%7e/'.replace('%7e', '%c3'), 'urn:a', 'x:', 'http://h/a/b.json#/']
BAD_URIS = ['', 'a', '/a/b', '//h/a', 'http://h/a#', 'http://h/a#x', 'http://h/a/b#/c', 'HTTP://h/a', 'http://H/a/b', 'http://h/a/./b',
            'http://h/a/../b', '#', '#a', 'a/b?c', 'http://h/%c3', 'urn:a#']
FAULTS = ['OSError', 'FileNotFoundError', 'ValueError', 'KeyError', 'JSONDecodeError', 'UnicodeDecodeError', 'RecursionError', 'MemoryError',
          'CatalogError', 'URIError', 'AttributeError', 'AssertionError', 'custom', 'StopIteration', 'TypeError', 'ImportError', 'bare']


@st.composite
def case(draw):
    bases = []
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        how = draw(st.sampled_from(['add', 'add', 'add', 'default', 'badadd', 'load', 'load', 'load', 'badload']))
        c = draw(st.sampled_from([0, 0, 0, 1]))
        if how == 'add':
            if bases and draw(st.integers(0, 2)):
                b = draw(st.sampled_from(bases))
                b = draw(st.sampled_from([b, b + draw(seg) + '/', b + draw(seg) + '/', b.rsplit('/', 2)[0] + '/' if b.count('/') > 3 else b]))
            else:
                b = draw(base())
            bases.append(b)
            ops.append(['add', c, b, draw(source)])
        elif how == 'default':
            ops.append(['add', c, None, draw(source)])
        elif how == 'badadd':
            ops.append(['badadd', c, draw(st.sampled_from(BAD_BASES)), draw(source)])
        elif how == 'load':
            ops.append(['load', c, draw(target(bases))])
        else:
            u = draw(st.sampled_from(BAD_URIS))
            ops.append(['badload', c, u])
    for _ in range(draw(st.integers(1, 4))):
        ops.append(['load', 0, draw(target(bases))])
    return ops


# a source: [its number, what it does]; the same number is the same object again
source = st.tuples(st.integers(0, 5), st.one_of(st.none(), st.none(), st.none(), st.sampled_from(FAULTS))).map(list)


class Custom(Exception):
    pass


def fault(name):
    import json
    from jschon import exc
    if name == 'custom':
        return Custom('a', 2)
    if name == 'bare':
        return Exception()
    if name == 'JSONDecodeError':
        return json.JSONDecodeError('bad', 'doc', 0)
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad')
    if name in ('CatalogError', 'URIError'):
        return getattr(exc, name)('x')
    return __builtins__[name]('x') if isinstance(__builtins__, dict) else getattr(__builtins__, name)('x')


def run(case, note):
    from jschon import Catalog, JSONSchema, URI
    from jschon.catalog import Source
    from jschon.exc import CatalogError

    calls = []

    class Recording(Source):
        def __init__(self, number):
            super().__init__()
            self.number = number
            self.fault = None

        def __call__(self, relative_path):
            calls.append((self.number, relative_path))
            if self.fault:
                raise fault(self.fault)
            doc = {'number': self.number, 'path': relative_path}
            self.last = doc
            return doc

    cats = [Catalog(name='pbt-a'), Catalog(name='pbt-b')]
    models = [{}, {}]
    sources = {}
    for op in case:
        cat, model = cats[op[1]], models[op[1]]
        del calls[:]
        if op[0] in ('add', 'badadd'):
            n, how = op[3]
            if (n, how) not in sources:
                sources[n, how] = Recording(n)
                sources[n, how].fault = how
            src = sources[n, how]
            uri = None if op[2] is None else URI(op[2])
            if op[0] == 'badadd':
                with raises(CatalogError, f'registering {op[2]!r}'):
                    cat.add_uri_source(uri, src)
            else:
                cat.add_uri_source(uri, src)
                model[op[2]] = src
            expect(not calls, 'registering a source called one: {}', calls)
        elif op[0] == 'badload':
            with raises(CatalogError, f'loading {op[2]!r}'):
                cat.load_json(URI(op[2]))
            expect(not calls, 'loading {!r} called a source: {}', op[2], calls)
        else:
            uri = op[2]
            found = [b for b in model if b is not None and uri.startswith(b)]
            if found:
                b = max(found, key=len)
            elif None in model:
                b = None
            else:
                with raises(CatalogError, f'loading {uri!r} without a source'):
                    cat.load_json(URI(uri))
                expect(not calls, 'a source was called: {}', calls)
                note.label('no source')
                continue
            src = model[b]
            rest = uri[len(b or ''):]
            note.label('default' if b is None else 'candidates:%d' % min(len(found), 3))
            note.nontrivial(len(found) > 1 or bool(src.fault))
            if src.fault:
                with raises(CatalogError, f'loading {uri!r} from a source that raises {src.fault}'):
                    cat.load_json(URI(uri))
            else:
                got = cat.load_json(URI(uri))
                expect(got is getattr(src, 'last', note), 'loading {!r} gave {!r}, not what the source returned', uri, got)
            expect(calls == [(src.number, rest)], 'loading {!r} called {}, not {}', uri, calls, [(src.number, rest)])


CHECKS = [Check('registrations', case, run, 8000,
                rule='histories of registrations of nested bases over two catalogs, with loads of URIs at, under and beside them, and sources that fail in '
                     'various ways; non-trivial when a load has two candidates or a failing source')]
