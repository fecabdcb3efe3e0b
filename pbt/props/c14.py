import re

from hypothesis import strategies as st

from pbt.gen import uris as gu
from pbt.ref import refuri
from .common import Check, expect, raises


@st.composite
def spelling(draw, parts):
    """The same URI, spelled differently."""
    s, a, p, q, f = parts
    if s and draw(st.booleans()):
        s = draw(st.sampled_from([s.upper(), s.lower(), s.title()]))
    if a and draw(st.booleans()):
        user, at, host = a.rpartition('@')
        a = pct(draw, user) + at + draw(st.sampled_from([host.upper(), host.lower(), host]))
    if draw(st.booleans()):
        p = pct(draw, p)
    if p.startswith('/') and draw(st.integers(0, 2)) == 0:
        segs = p[1:].split('/')
        i = draw(st.integers(0, len(segs) - 1))
        segs[i:i] = draw(st.sampled_from([['.'], ['z', '..'], ['.', '.'], ['z', '.', '..']]))
        p = '/' + '/'.join(segs)
    return [s, a, p, pct(draw, q), pct(draw, f)]


def pct(draw, text):
    if not text:
        return text
    return re.sub('%[0-9A-Fa-f]{2}', lambda m: m.group(0).upper() if draw(st.booleans()) else m.group(0).lower(), text)


@st.composite
def pair(draw):
    u = draw(gu.absolute)
    v = list(draw(spelling(u)))
    if draw(st.integers(0, 2)) == 0:
        i = draw(st.integers(0, 4))
        other = draw(gu.absolute)
        if i == 2:
            v[2] = draw(st.sampled_from([v[2] + 'x', v[2].swapcase(), v[2] + '/', v[2][:-1] or '/y'])) if v[2] else '/x'
            if (v[1] and not v[2].startswith('/')) or v[2].startswith('//'):
                v[2] = '/w'
        elif i == 1:
            if v[1] and other[1]:
                v[1] = other[1]
        elif i == 0:
            v[0] = other[0]
        else:
            v[i] = draw(gu.opt_qf)
    return [u, v]


def equality(case, note):
    from jschon import URI
    ta, tb = refuri.join(*case[0]), refuri.join(*case[1])
    a, b = URI(ta), URI(tb)
    want = refuri.normalize(ta) == refuri.normalize(tb)
    note.label('equal' if want else 'unequal')
    note.nontrivial(ta != tb)
    expect((a == b) is want and (b == a) is want, '{!r} == {!r} is {}, not {}', ta, tb, a == b, want)
    expect((a != b) is (not want), '{!r} != {!r} is {}', ta, tb, a != b)
    expect(a == a and a == URI(ta) and hash(a) == hash(URI(ta)), '{!r} is not equal to itself', ta)
    if want:
        expect(hash(a) == hash(b), 'equal URIs {!r} and {!r} have different hashes', ta, tb)
    expect((b in {a: 1}) is want and (b in {a}) is want, '{!r} is {}found under {!r}', tb, '' if b in {a: 1} else 'not ', ta)
    expect(len({a, b}) == (1 if want else 2), 'set of {!r} and {!r}', ta, tb)
    expect((a == None) is False, '{!r} equals None', ta)     # noqa: E711


def cached(case, note):
    from jschon import Catalog, JSONSchema, URI
    from jschon.exc import CatalogError
    ta, tb = refuri.join(*case[0]), refuri.join(*case[1])
    fa, fb = refuri.split(ta)[4], refuri.split(tb)[4]
    want = refuri.normalize(ta) == refuri.normalize(tb)
    note.nontrivial(ta != tb)
    note.label('equal' if want else 'unequal')
    cat = Catalog(name='pbt-uri')
    schema = JSONSchema(True, catalog=cat, uri=URI(ta))
    # with an empty fragment, or one that leads nowhere, the base is looked up instead
    if not want and not (fa is None and fb == ''):
        with raises(CatalogError, f'{tb!r} is not {ta!r}'):
            cat.get_schema(URI(tb))
    if want:
        expect(cat.get_schema(URI(tb)) is schema, '{!r} does not find what was cached under {!r}', tb, ta)
        cat.del_schema(URI(tb))
        with raises(CatalogError, f'{ta!r} after {tb!r} was deleted'):
            cat.get_schema(URI(ta))


FLAGS = ('require_scheme', 'require_normalized', 'allow_fragment', 'allow_non_empty_fragment')


def validate(case, note):
    from jschon import URI
    from jschon.exc import URIError
    parts, flags = case
    text = refuri.join(*parts)
    kwargs = {k: v for k, v in zip(FLAGS, flags) if v is not None}
    full = {'require_scheme': False, 'require_normalized': False, 'allow_fragment': True, 'allow_non_empty_fragment': True, **kwargs}
    ok = True
    if full['require_scheme'] and not parts[0]:
        ok = False
    if full['require_normalized'] and refuri.normalize(text) != text:
        ok = False
    if not full['allow_fragment'] and parts[4] is not None:
        ok = False
    if not full['allow_non_empty_fragment'] and parts[4]:
        ok = False
    note.label('accepted' if ok else 'refused')
    note.nontrivial(bool(kwargs))
    if ok:
        expect(URI(text).validate(**kwargs) is None, 'validate returned something')
    else:
        with raises(URIError, f'{text!r} with {kwargs}'):
            URI(text).validate(**kwargs)


@st.composite
def to_validate(draw):
    u = draw(st.one_of(gu.absolute, gu.absolute, gu.plain_relative))
    if u[0] and draw(st.booleans()):
        u = draw(spelling(u))
    if draw(st.booleans()):
        s, a, p, q, f = refuri.split(refuri.normalize(refuri.join(*u)))
        u = [s, a, p, q, f]
    return [u, draw(st.tuples(*[st.sampled_from([None, True, False])] * 4).map(list))]


CHECKS = [
    Check('equality', pair, equality, 6000, rule='pairs of spellings of one URI, a third of them changed in one component; non-trivial when the texts differ'),
    Check('cached', pair, cached, 3000, rule='a schema cached under one spelling and fetched and deleted under the other; non-trivial when the texts differ'),
    Check('validate', to_validate, validate, 5000, rule='URIs and references, normalised or not, with every set of conditions; non-trivial when a condition is given'),
]
