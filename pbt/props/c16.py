"""C16: what local and remote sources read, and what they never read."""
import json
import os
import pathlib
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from pbt import httpd
from .common import Check, expect, raises

UNICODE_NAMES = sys.getfilesystemencoding().lower().replace('-', '') == 'utf8'

# ----------------------------------------------------------------- files

PLAIN = ['a', 'b', 'A', 'ab', 'foo', 'x.json', 'a.json']
ODD = ['a b', '%41', '%2e%2e', '%2F', '#', '?', 'a?b', 'a#b', '\\', 'a\\b', '"', "'", ':', 'a:b', '*', '...', '..a', '.a', 'a.', '~', '~root',
       '$HOME', '\n', 'a\nb', '\t', ';', '&', '|x', 'http:', '-', '--x', '[a]', '{a}', '@', '+', '=', 'a.json.json', '\x7f']
WIDE = ['é', 'e\u0301', '日本', '\U0001d4b3', '\u202e']
name = st.one_of(st.sampled_from(PLAIN), st.sampled_from(PLAIN + ODD), st.sampled_from(ODD + WIDE),
                 st.text('ab.%:#? ', min_size=1, max_size=4).filter(lambda s: s not in ('.', '..')))
suffixes = st.sampled_from([None, None, '', '.json', '.json', '.schema.json', '/index.json', '-x', '/schema', '.é', '?', ' '])
contents = st.one_of(st.integers(), st.text(max_size=3), st.lists(st.sampled_from([None, 1, 'é', {}]), max_size=2),
                     st.sampled_from([{'a': 'é\U0001d4b3'}, True, None, 1e300, {'': [1]}]))
BAD = ['empty', 'junk', 'truncated', 'nan', 'infinity', 'latin1', 'bom16', 'deep', 'trailing', 'single']


def bad_bytes(kind):
    return {'empty': b'', 'junk': b'hello', 'truncated': b'{"a": [1, ', 'nan': b'{"a": NaN}', 'infinity': b'[-Infinity]', 'latin1': b'"\xe9"',
            'bom16': '"a"'.encode('utf-16'), 'deep': b'[' * 200000, 'trailing': b'{} {}', 'single': b"{'a': 1}"}[kind]


@st.composite
def tree(draw):
    n = draw(st.integers(1, 4))
    suffix = draw(suffixes)
    files = []
    for _ in range(n):
        parts = draw(st.lists(name, min_size=1, max_size=3))
        what = draw(st.one_of(contents.map(lambda v: ['json', v]), contents.map(lambda v: ['json', v]), st.sampled_from(BAD).map(lambda k: ['bad', k]),
                              st.just(['dir', None])))
        files.append([parts, draw(st.booleans()) and suffix is not None, what])
    asks = []
    for _ in range(draw(st.integers(1, 4))):
        how = draw(st.sampled_from(['file', 'file', 'file', 'file', 'near', 'other']))
        f = draw(st.sampled_from(files))
        if how == 'file':
            asks.append('/'.join(f[0]))
        elif how == 'near':
            asks.append(draw(st.sampled_from(['/'.join(f[0]).swapcase() + 'x', '/'.join(f[0][:-1] + ['zz']), './' + '/'.join(f[0]), '//'.join(f[0]),
                                              f[0][0] + '/../' + '/'.join(f[0]), '/'.join(f[0]) + 'y'])))
        else:
            asks.append('/'.join(draw(st.lists(name, min_size=1, max_size=2))))
    return {'files': files, 'suffix': suffix, 'asks': asks, 'base': draw(st.sampled_from(['str', 'Path', 'slash', 'relative', 'odd']))}


def encodable(case):
    def texts(x):
        if isinstance(x, str):
            yield x
        elif isinstance(x, (list, tuple)):
            for y in x:
                yield from texts(y)
    if UNICODE_NAMES:
        return True
    return all(t.isascii() for t in texts([[f[0] for f in case['files']], case['suffix'] or '', case['asks']]))


def place(base, case):
    """Writes the tree; clashing entries are left out."""
    for parts, with_suffix, (kind, value) in case['files']:
        p = base + '/' + '/'.join(parts) + ((case['suffix'] or '') if with_suffix else '')
        try:
            if os.path.exists(p):
                continue
            if kind == 'dir':
                os.makedirs(p)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(json.dumps(value, ensure_ascii=bool(len(parts) % 2)).encode() if kind == 'json' else bad_bytes(value))
        except OSError:
            continue


def read(path):
    """An independent reading: (True, value) or (False, None)."""
    def no(c):
        raise ValueError(c)
    try:
        with open(path, 'rb') as f:
            return True, json.loads(f.read().decode('utf-8'), parse_constant=no)
    except (OSError, ValueError, RecursionError):
        return False, None


def local(case, note):
    from jschon import Catalog, LocalSource, URI
    from jschon.exc import CatalogError
    if not encodable(case):
        note.label('not encodable here')
        return
    tmp = tempfile.mkdtemp(prefix='c16-')
    cwd = os.getcwd()
    try:
        sub = {'odd': 'b%41 #é?' if UNICODE_NAMES else 'b%41 #?'}.get(case['base'], 'base')
        base = os.path.join(tmp, sub)
        os.mkdir(base)
        place(base, case)
        given = base
        if case['base'] == 'Path':
            given = pathlib.Path(base)
        elif case['base'] == 'slash':
            given = base + '/'
        elif case['base'] == 'relative':
            os.chdir(tmp)
            given = sub
        kwargs = {} if case['suffix'] is None else {'suffix': case['suffix']}
        source = LocalSource(given, **kwargs)
        cat = Catalog(name='pbt-c16')
        cat.add_uri_source(URI('http://h/s/'), source)
        cat.add_uri_source(None, source)
        for rel in case['asks']:
            ok, value = read(base + '/' + rel + (case['suffix'] or ''))
            note.label('there' if ok else 'not there')
            note.nontrivial(ok and any(not c.isalnum() for c in rel))
            if ok:
                got = source(rel)
                expect(json.dumps(got) == json.dumps(value), '{!r} gave {!r}, not {!r}', rel, got, value)
            else:
                try:
                    got = source(rel)
                except Exception:
                    pass
                else:
                    expect(False, '{!r} gave {!r}', rel, got)
            # the same through a catalog, where the text of the URI is the path
            try:
                uri = URI('http://h/s/' + rel)
                uri.validate(require_scheme=True, require_normalized=True, allow_fragment=False)
                text = str(uri)
            except Exception:
                continue
            if text != 'http://h/s/' + rel:
                continue
            note.label('through a catalog')
            if ok:
                got = cat.load_json(uri)
                expect(json.dumps(got) == json.dumps(value), '{!r} gave {!r}, not {!r}', uri, got, value)
            else:
                with raises(CatalogError, f'loading {uri!r}'):
                    cat.load_json(uri)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------- containment

_watch = {'on': False, 'seen': []}
_installed = []


def watch():
    if not _installed:
        def hook(event, args):
            if _watch['on'] and event == 'open' and isinstance(args[0], (str, bytes, os.PathLike)):
                _watch['seen'].append(os.fsdecode(args[0]))
        sys.addaudithook(hook)
        _installed.append(hook)


PIECES = ['..', '..', '.', '', 'a', 'd', 'secret', 'secret.json', 'base-x', 'base', '%2e%2e', '%2E%2E', '..%2F', '%2f', '?', '..?', '?..', '#', ';', '\\',
          '..\\', '~', '...', 'TMP', 'TMP', '%00', '\x00', ':', 'x:', 'file:', 'index']


@st.composite
def escape(draw):
    rel = '/'.join(draw(st.lists(st.sampled_from(PIECES), min_size=1, max_size=7)))
    rel = draw(st.sampled_from(['', '', '', '/', '//', '?/', '?', './'])) + rel
    if draw(st.integers(0, 4)) == 0:
        rel = draw(st.sampled_from(['d/../d/secret', 'a', 'd/index/a', 'base', 'index', 'secret', 'secret.json', 'd/secret', './a', '%2e%2e', '../base/a', 'd/../../base/a']))
    return {'prefix': draw(st.sampled_from(['http://h/s/', 'http://h/s/', 'http://h/', 'urn:', 'x:a/', ''])), 'rel': rel,
            'suffix': draw(st.sampled_from([None, None, '', '.json', '.json', '/index', '-x/secret.json', '-x'])),
            'direct': draw(st.booleans()), 'default': draw(st.booleans())}


def contained(case, note):
    from jschon import Catalog, LocalSource, URI
    from jschon.exc import CatalogError
    watch()
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='c16-'))
    try:
        base = tmp + '/w/base'
        for d in ('/w/base/d/index', '/w/base/a', '/w/base-x', '/w/base.json', '/d', '/w/base/?', '/w/base/..%2F'):
            os.makedirs(tmp + d)
        good = ['/w/base/a.json', '/w/base/index.json', '/w/base/d/secret', '/w/base/d/index/a', '/w/base/secret.json', '/w/base/base', '/w/base/%2e%2e']
        for g in good:
            pathlib.Path(tmp + g).write_text('"inside"')
        for s in ('/secret', '/secret.json', '/w/secret', '/w/secret.json', '/w/base-x/secret', '/w/base-x/secret.json', '/d/secret', '/w/base.json/secret',
                  '/a.json', '/w/a.json', '/w/index', '/w/d', '/w/a', '/w/base-x/index', '/w/base-x/a.json'):
            pathlib.Path(tmp + s).write_text('"secret"')
        kwargs = {} if case['suffix'] is None else {'suffix': case['suffix']}
        source = LocalSource(base, **kwargs)
        cat = Catalog(name='pbt-c16e')
        if case['default'] or case['prefix'] in ('', 'urn:'):
            cat.add_uri_source(None, source)
        else:
            cat.add_uri_source(URI(case['prefix']), source)
        rel = case['rel'].replace('TMP', tmp.lstrip('/'))
        lexical = os.path.normpath(os.path.join(base, rel))
        note.nontrivial(not (lexical + '/').startswith(base + '/') or '..' in rel)
        _watch['seen'].clear()
        got = None
        _watch['on'] = True
        try:
            if case['direct']:
                got = source(rel)
            else:
                got = cat.load_json(URI(case['prefix'] + rel))
        except CatalogError:
            pass
        except Exception:
            # the source alone, and the URI class itself, may raise other errors
            pass
        finally:
            _watch['on'] = False
        note.label('read' if got is not None else 'refused')
        expect(got in (None, 'inside'), 'read {!r}', got)
        for path in _watch['seen']:
            if path.endswith(('.py', '.pyc')):
                continue
            real = os.path.normpath(os.path.join(os.getcwd(), path))
            expect(real.startswith(base + '/') or real == base, 'opened {!r}, outside {!r}', real, base)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- remote

RSEG = st.one_of(st.sampled_from(['a', 'b', 'a.json', 'A', 'x:y', 'a@b', '~a', '...', '..a', '.a', 'a,b', 'a;b=1', "it's", '(a)', '*', '!', '$a', 'a+b', 'a=b', 'a&b',
                                  '%20', '%2F', '%C3%A9', '-', '_']), st.sampled_from(['a', 'b', 'c']))


@st.composite
def remote_case(draw):
    paths = draw(st.lists(st.tuples(st.lists(RSEG, min_size=1, max_size=3).map('/'.join), st.sampled_from(['', '', '', '?q', '?a=b&c=/d'])).map(''.join),
                          min_size=1, max_size=3, unique=True))
    return {'base': draw(st.sampled_from(['/', '/s/', '/s/t/', '/a/'])), 'suffix': draw(st.sampled_from([None, None, '', '.json', '/index', '.x'])),
            'files': [[p, draw(st.one_of(contents.map(lambda v: ['json', v]), contents.map(lambda v: ['json', v]), st.sampled_from(['empty', 'junk', 'nan', 'truncated']).map(lambda k: ['bad', k])))]
                      for p in paths],
            'asks': draw(st.lists(st.one_of(st.sampled_from(paths), st.sampled_from(paths), RSEG), min_size=1, max_size=3))}


def remote(case, note):
    from jschon import Catalog, RemoteSource, URI
    from jschon.exc import CatalogError
    suffix = case['suffix'] or ''
    files, values = {}, {}
    for p, (kind, v) in case['files']:
        where = case['base'] + p + suffix
        files[where] = json.dumps(v).encode() if kind == 'json' else bad_bytes(v)
        values[where] = (kind, v)
    with httpd.serve(files) as root:
        kwargs = {} if case['suffix'] is None else {'suffix': case['suffix']}
        source = RemoteSource(URI(root + case['base']), **kwargs)
        cat = Catalog(name='pbt-c16r')
        cat.add_uri_source(URI('http://h/s/'), source)
        for rel in case['asks']:
            where = case['base'] + rel + suffix
            before = len(httpd.log())
            kind, value = values.get(where, ('none', None))
            note.nontrivial(kind != 'none')
            note.label(kind)
            if kind == 'json':
                got = cat.load_json(URI('http://h/s/' + rel))
                expect(json.dumps(got) == json.dumps(value), '{!r} gave {!r}, not {!r}', rel, got, value)
            else:
                with raises(CatalogError, f'loading {rel!r}'):
                    cat.load_json(URI('http://h/s/' + rel))
            asked = httpd.log()[before:]
            expect(set(asked) <= {where}, 'asked for {}, not {!r}', asked, where)


CHECKS = [
    Check('local', tree, local, 5000, rule='directory trees with plain and odd names, any suffix, good and bad content, and requests for existing and missing files; '
          'non-trivial when an existing file with a non-alphanumeric name is read'),
    Check('contained', escape, contained, 4000, rule='URIs and paths made of dot segments, encoded dots, absolute paths and empty segments, with secrets placed outside the base '
          'directory and every opened path recorded; non-trivial when the path has dot-dot segments or leads outside'),
    Check('remote', remote_case, remote, 1200, rule='a loopback server with files of good and bad content; non-trivial when the file asked for exists'),
]
