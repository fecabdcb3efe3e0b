import re

from hypothesis import strategies as st

from pbt.gen import values as gv
from pbt.ref import refpointer
from .common import Check, expect, keys_of, raises

LEGAL = re.compile(r"(?:[A-Za-z0-9\-._~!$&'()*+,;=:@/?]|%[0-9A-Fa-f]{2})*\Z")
FRAGMENT_CHARS = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@/?")


def encode(text, plan):
    """Percent-encode as a fragment, with free choices where RFC 3986 leaves them."""
    out = []
    for i, c in enumerate(text):
        p = plan[i % len(plan)] if plan else 0
        if c in FRAGMENT_CHARS and not p & 1:
            out.append(c)
        else:
            fmt = '%{:02x}' if p & 2 else '%{:02X}'
            out.append(''.join(fmt.format(b) for b in c.encode('utf-8')))
    return ''.join(out)


def decode(fragment):
    out, i = bytearray(), 0
    while i < len(fragment):
        if fragment[i] == '%':
            out.append(int(fragment[i + 1:i + 3], 16))
            i += 3
        else:
            out += fragment[i].encode('utf-8')
            i += 1
    return out.decode('utf-8')


def grammar(case, note):
    from jschon import JSONPointer
    from jschon.exc import JSONPointerMalformedError

    class OwnError(JSONPointerMalformedError):
        pass

    class OwnPointer(JSONPointer):
        malformed_exc = OwnError

    text = case['text']
    frag = encode(text, case['plan'])
    try:
        keys = refpointer.parse(text)
    except refpointer.Malformed:
        note.label('malformed')
        note.nontrivial(text.startswith('/'))
        with raises(JSONPointerMalformedError, f'malformed {text!r}'):
            JSONPointer(text)
        with raises(JSONPointerMalformedError, f'malformed {text!r} after another part'):
            JSONPointer('/a', text)
        with raises(JSONPointerMalformedError, f'malformed fragment {frag!r}'):
            JSONPointer.parse_uri_fragment(frag)
        with raises(OwnError, f'malformed {text!r} for a subclass with its own exception'):
            OwnPointer(text)
        return
    note.label('well-formed')
    note.nontrivial('~' in text)
    p = JSONPointer(text)
    expect(keys_of(p) == keys, 'keys of {!r}: {!r}', text, keys_of(p))
    expect(str(p) == text, 'text of {!r}: {!r}', text, str(p))
    own = OwnPointer(text)
    expect(type(own) is OwnPointer and keys_of(own) == keys and str(own) == text, '{!r} in a subclass: {!r}', text, own)
    q = JSONPointer.parse_uri_fragment(frag)
    expect(keys_of(q) == keys, 'fragment {!r} gives {!r}', frag, keys_of(q))


def keys(case, note):
    from jschon import JSONPointer
    ks = case['keys']
    note.nontrivial(any(c in k for k in ks for c in '~/%') or any(not k.isascii() for k in ks))
    p = JSONPointer(ks)
    text = str(p)
    expect(keys_of(p) == ks, 'keys')
    expect(text == refpointer.write(ks), 'text of {!r}: {!r}', ks, text)
    expect(keys_of(JSONPointer(text)) == ks, 'keys of the text {!r}', text)
    frag = p.uri_fragment()
    expect(LEGAL.match(frag), 'fragment {!r} has characters not allowed in a fragment', frag)
    expect(decode(frag) == text, 'fragment {!r} does not decode to {!r}', frag, text)
    expect(keys_of(JSONPointer.parse_uri_fragment(frag)) == ks, 'fragment {!r} does not round trip', frag)
    for k in ks:
        esc = JSONPointer.escape(k)
        expect(esc == refpointer.escape(k) and JSONPointer.unescape(esc) == k, 'escape of {!r}: {!r}', k, esc)
    r = repr(p)
    expect(eval(r, {'JSONPointer': JSONPointer}) == p, 'repr {}', r)


near_text = st.one_of(
    st.lists(st.sampled_from(['/', '/', '~0', '~1', '~', '0', '1', '2', 'a', '%', '%2F', '%7E', '\n', 'é', '~01', '~10', '~~', '#', '-', ' ', '\u2028', '?']),
             max_size=8).map(''.join),
    st.lists(st.sampled_from(['/', '/', '~0', '~1', '~0', '~1', 'a', '%', '0', '\n']), max_size=8).map(lambda l: '/' + ''.join(l)),
    gv.text, gv.text.map(lambda t: '/' + t))

nasty_key = st.one_of(gv.key, st.lists(st.sampled_from(['~', '/', '~0', '~1', '%', '%2F', '%7E', '0', '1', 'a', '\n', '+', '&', '?', '"', '^', 'é', '\U0001d4b3']), max_size=5).map(''.join))

CHECKS = [
    Check('grammar', lambda: st.fixed_dictionaries({'text': near_text, 'plan': st.lists(st.integers(0, 3), max_size=4)}), grammar, 8000,
          rule='strings at and around the RFC 6901 grammar, also percent-encoded; non-trivial when escaped or malformed after a slash'),
    Check('keys', lambda: st.fixed_dictionaries({'keys': st.lists(nasty_key, max_size=6)}), keys, 6000,
          rule='key sequences through text, escape and fragment codecs; non-trivial with ~ / % or non-ASCII'),
]
