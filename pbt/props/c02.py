import contextlib
import json
import os
import pathlib
import tempfile

from hypothesis import strategies as st

from pbt import httpd
from pbt.gen import values as gv
from pbt.ref import refjson, refjsontext
from .common import Check, expect, raises, size

ASSUMPTIONS = ['strings holding lone surrogates are outside the domain (they have no UTF-8 form)',
               'remote documents are served over real HTTP on the loopback interface']


def strict_parse(text):
    def bad(c):
        raise AssertionError(f'{c} in output')
    return json.loads(text, parse_constant=bad)


def text(case, note):
    from jschon import JSON
    value = case['value']
    doc = JSON(value)
    note.nontrivial(size(value) > 1)
    out = doc.dumps()
    expect(isinstance(out, str), 'dumps gives text')
    expect(refjson.same(strict_parse(out), value), 'text {!r} does not read as the value', out)
    expect(str(doc) == out, 'str and dumps differ')
    again = JSON.loads(out)
    expect(refjson.same(again.value, value) and again == doc, 'loads(dumps) differs')
    # whatever way the text is laid out
    styles = [json.dumps(value, ensure_ascii=a, indent=i, separators=s)
              for a in (True, False) for i in (None, 2) for s in ((',', ':'), (' , ', ' : '))]
    got = JSON.loads(styles[case['style'] % len(styles)])
    expect(refjson.same(got.value, value), 'loads of another layout differs')
    for path, v in refjson.walk(value):
        node = doc
        for k in path:
            node = node[int(k)] if node.type == 'array' else node[k]
        expect(refjson.same(strict_parse(node.dumps()), v), 'dumps of the node at {}', path)


def files(case, note):
    from jschon import JSON
    value = case['value']
    doc = JSON(value)
    note.nontrivial(any(isinstance(v, str) and not v.isascii() for _, v in refjson.walk(value)) or
                    any(not k.isascii() for p, _ in refjson.walk(value) for k in p))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'doc.json')
        arg = pathlib.Path(p) if case['style'] % 2 else p
        with open(p, 'w') as f:
            f.write('x' * (case['style'] * 50))           # an older, longer file is replaced
        doc.dumpf(arg)
        with open(p, 'rb') as f:
            raw = f.read()
        expect(refjson.same(strict_parse(raw.decode('utf-8')), value), 'the file written is not the value in UTF-8: {!r}', raw)
        got = JSON.loadf(arg)
        expect(refjson.same(got.value, value), 'loadf(dumpf) differs')
        with open(p, 'wb') as f:
            f.write(json.dumps(value, ensure_ascii=bool(case['style'] & 2)).encode('utf-8'))
        got = JSON.loadf(arg)
        expect(refjson.same(got.value, value), 'loadf of a UTF-8 file differs: {!r}', got.value)


def remote(case, note):
    from jschon import JSON
    value = case['value']
    note.nontrivial(size(value) > 1)
    body = json.dumps(value, ensure_ascii=bool(case['style'] & 1)).encode('utf-8')
    # text types without a charset are Latin-1 to HTTP, and not served
    with httpd.serve({'/x/doc.json': body}, ['application/json', 'text/plain; charset=utf-8', 'application/schema+json', 'application/octet-stream', 'application/json; charset=utf-8', ''][case['style'] % 6]) as base:
        got = JSON.loadr(base + '/x/doc.json')
        expect(refjson.same(got.value, value), 'loadr differs: {!r}', got.value)
        if case['style'] == 0:
            with raises(Exception, 'a missing remote document'):
                JSON.loadr(base + '/x/none.json')


def nonfinite(case, note):
    from jschon import JSON
    value, at, which = case['value'], case['at'], case['which']
    const = {'NaN': float('nan'), 'Infinity': float('inf'), '-Infinity': float('-inf')}[which]
    locs = [p for p, _ in refjson.walk(value)]
    path = locs[at % len(locs)]
    note.nontrivial(len(path) > 0)
    note.label(which)
    mark = 'here be the constant'
    if not path:
        value, marked = const, mark
    else:
        parents = []
        for v, leaf in ((value, const), (marked := refjson.copy(value), mark)):
            for k in path[:-1]:
                v = v[int(k)] if isinstance(v, list) else v[k]
            v[int(path[-1]) if isinstance(v, list) else path[-1]] = leaf
            parents.append(v)
    bad = json.dumps(marked).replace(json.dumps(mark), which)
    doc = JSON(value)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'doc.json')
        with raises(ValueError, f'dumps with {which} at {path}'):
            doc.dumps()
        with raises(ValueError, f'dumpf with {which} at {path}'):
            doc.dumpf(p)
        with raises(ValueError, f'loads with {which} at {path}'):
            JSON.loads(bad)
        with open(p, 'w') as f:
            f.write(bad)
        with raises(ValueError, f'loadf with {which} at {path}'):
            JSON.loadf(p)
        if case['remote']:
            with httpd.serve({'/doc.json': bad.encode()}) as base:
                with raises(ValueError, f'loadr with {which} at {path}'):
                    JSON.loadr(base + '/doc.json')


docs = st.one_of(gv.documents, gv.containers(30))
uni = gv.containers(8, st.one_of(gv.key, st.text(st.characters(exclude_categories=('Cs',)), max_size=3)),
                    st.one_of(gv.scalars, st.text(st.characters(min_codepoint=128, exclude_categories=('Cs',)), min_size=1, max_size=4)))

PIECES = ['{', '}', '[', ']', '"', ',', ':', '\\', "'", '\x01', '\n', '\t', '\x0b', '\xa0', '\x7f', '\u2028', '0', '-', '+', '.', 't', 'n', '/', '//', '/**/', '#', ',]', ',}', 'null', 'True', 'None', '\\x41', '\\u12',
          '\\u0041', '\\/', '\\a', ' ', '01', '.5', '5.', '0x1', '1_0', '\u0661', 'undefined', 'nan', 'inf', '\u3000', '\x85', '\x00']


@st.composite
def broken(draw):
    """A JSON text with up to two small edits."""
    value = draw(docs)
    text = json.dumps(value, ensure_ascii=draw(st.booleans()), indent=draw(st.sampled_from([None, None, 1])))
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(text)))
        how = draw(st.integers(0, 5))
        if how == 0:
            text = text[:i]
        elif how == 1:
            text = text[i:]
        elif how == 2:
            text = text[:i] + text[i + 1:]
        elif how == 3:
            text = text[:i] + draw(st.sampled_from(PIECES)) + text[i + 1:]
        else:
            text = text[:i] + draw(st.sampled_from(PIECES)) + text[i:]
    return {'text': text, 'remote': draw(st.integers(0, 15)) == 0}


def grammar(case, note):
    """A text is read if it is JSON, and refused if it is not."""
    from jschon import JSON
    text = case['text']
    try:
        unspecified = refjsontext.recognise(text)
        good = True
    except refjsontext.NotJSON:
        good = False
    note.nontrivial(not good)
    note.label('JSON' if good else 'not JSON')
    if good:
        want = json.loads(text)
        if unspecified or any(isinstance(v, float) and v - v != 0 for _, v in refjson.walk(want)):
            note.label('unspecified value')
            return
    with tempfile.TemporaryDirectory() as d, contextlib.ExitStack() as stack:
        p = os.path.join(d, 'doc.json')
        with open(p, 'wb') as f:
            f.write(text.encode('utf-8'))
        loaders = [('loads', lambda: JSON.loads(text)), ('loadf', lambda: JSON.loadf(p))]
        if case['remote']:
            base = stack.enter_context(httpd.serve({'/doc.json': text.encode('utf-8')}))
            loaders.append(('loadr', lambda: JSON.loadr(base + '/doc.json')))
        for name, load in loaders:
            if good:
                expect(refjson.same(load().value, want), '{} of {!r}', name, text)
            else:
                with raises(ValueError, f'{name} of {text!r}'):
                    load()


CHECKS = [
    Check('text', lambda: st.fixed_dictionaries({'value': docs, 'style': st.integers(0, 7)}), text, 5000,
          rule='values dumped and loaded as text in 8 layouts; non-trivial when compound'),
    Check('files', lambda: st.fixed_dictionaries({'value': uni, 'style': st.integers(0, 3)}), files, 2400,
          rule='values written to and read from files in UTF-8 and C-locale processes; non-trivial with non-ASCII text'),
    Check('remote', lambda: st.fixed_dictionaries({'value': uni, 'style': st.integers(0, 11)}), remote, 400,
          rule='values fetched over loopback HTTP; non-trivial when compound'),
    Check('nonfinite', lambda: st.fixed_dictionaries({'value': gv.documents, 'at': st.integers(0, 30), 'remote': st.sampled_from([False] * 7 + [True]),
                                                      'which': st.sampled_from(['NaN', 'Infinity', '-Infinity'])}), nonfinite, 1600,
          rule='a non-finite number planted in a value or text; non-trivial when below the root'),
    Check('grammar', broken, grammar, 3000,
          rule='JSON texts with up to two small edits, through each loader, against the grammar of RFC 8259; non-trivial when the text is no longer JSON'),
]
