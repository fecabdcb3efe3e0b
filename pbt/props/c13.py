from hypothesis import strategies as st

from pbt.gen import uris as gu
from pbt.ref import refuri
from .common import Check, expect

NAMES = ('scheme', 'authority', 'path', 'query', 'fragment')


def same_parts(uri, want, what):
    for name, w in zip(NAMES, want):
        g = getattr(uri, name)
        if name in ('query', 'fragment'):
            expect(g == w and (g is None) == (w is None), '{}: {} is {!r}, not {!r}', what, name, g, w)
        else:
            expect((g or '') == (w or ''), '{}: {} is {!r}, not {!r}', what, name, g, w)


def components(case, note):
    from jschon import URI
    text = refuri.join(*case)
    assert list(refuri.split(text)) == case
    uri = URI(text)
    note.nontrivial(sum(bool(x) for x in case) >= 2)
    expect(str(uri) == text, 'text {!r} became {!r}', text, str(uri))
    expect(len(uri) == len(text), 'length of {!r}: {}', text, len(uri))
    same_parts(uri, case, text)
    whole = bool(case[0]) and bool(case[1] or case[2])
    expect(uri.is_absolute() is (whole and case[4] is None), '{!r} is_absolute: {}', text, uri.is_absolute())
    expect(uri.has_absolute_base() is whole, '{!r} has_absolute_base: {}', text, uri.has_absolute_base())
    note.label('absolute' if case[0] else 'relative')


def copy(case, note):
    from jschon import URI
    parts, changes = case['uri'], case['changes']
    uri = URI(refuri.join(*parts))
    kwargs, want = {}, list(parts)
    for i, (how, other) in enumerate(changes):
        if how == 'existing':
            kwargs[NAMES[i]] = True
        elif how in ('remove', 'none'):
            kwargs[NAMES[i]] = False if how == 'remove' else None
            want[i] = None
        elif how == 'replace':
            kwargs[NAMES[i]] = other
            want[i] = other
    note.nontrivial(want != parts)
    new = uri.copy(**kwargs)
    same_parts(new, want, f'{uri} copied with {kwargs}')
    same_parts(uri, parts, f'{uri} after it was copied')
    text = refuri.join(want[0] or None, want[1] or None, want[2] or '', want[3], want[4])
    expect(str(new) == text, '{} copied with {} prints as {!r}, not {!r}', uri, kwargs, str(new), text)


def resolve(case, note):
    from jschon import URI
    base, ref = case
    bt, rt = refuri.join(*base), refuri.join(*ref)
    want = refuri.normalize(refuri.resolve(rt, bt))
    if refuri.split(want)[2] == '/' and '..' in bt + rt:
        # rfc3986 itself gets the root wrong after climbing above it
        note.label('set aside')
        return
    b, r = URI(bt), URI(rt)
    got = r.resolve(b)
    text = refuri.normalize(str(got))
    expect(text == want, '{!r} against {!r} gave {!r}, not {!r}', rt, bt, str(got), want)
    expect((str(b), str(r)) == (bt, rt), 'operands changed: {!r} {!r}', str(b), str(r))
    expect(got == URI(want), 'the result {!r} is not equal to {!r}', got, want)
    same_parts(got, refuri.split(str(got)), 'the result')
    note.nontrivial(ref[0] is None and bool(ref[2]))
    note.label('ref:' + ('absolute' if ref[0] else 'network' if ref[1] else 'rooted' if ref[2].startswith('/') else 'relative' if ref[2] else 'empty'))


def usable(pair):
    base, ref = pair
    # the non-strict reading of a reference with the base's own scheme is allowed, and left out
    return not (ref[0] and ref[0].lower() == base[0].lower() and not ref[1])


change = st.sampled_from(['existing', 'existing', 'omit', 'omit', 'remove', 'none', 'replace'])
changes = st.tuples(*[st.tuples(change, s).map(list) for s in (
    st.sampled_from(['http', 'x']), gu.authority, st.one_of(gu.abs_path, gu.abs_path.filter(bool)), gu.qf, gu.qf)]).map(list)
hier_base = st.one_of(gu.hierarchical, gu.parts(gu.schemes, gu.authority, gu.dot_path.filter(lambda p: p.split('/')[-1] not in ('.', '..'))), gu.rooted)
opaque_ref = st.one_of(gu.parts(gu.none, gu.none, st.just('')), gu.absolute)
dotted_ref = st.one_of(gu.parts(gu.none, gu.none, gu.rel_path), gu.parts(gu.none, gu.none, gu.rel_path), gu.parts(gu.none, gu.none, gu.dot_path),
                       gu.parts(gu.none, gu.authority, gu.dot_path), gu.reference.map(list))

CHECKS = [
    Check('components', lambda: gu.reference, components, 6000, rule='URI references of every shape; non-trivial with two or more non-empty components'),
    Check('copy', lambda: st.fixed_dictionaries({'uri': gu.absolute, 'changes': changes}), copy, 5000,
          rule='components kept, removed or replaced in any combination; non-trivial when something changes'),
    Check('resolve', lambda: st.one_of(*[st.tuples(hier_base.map(list), dotted_ref.map(list))] * 4, st.tuples(gu.opaque_uri, opaque_ref.map(list))).map(list).filter(usable), resolve, 6000,
          rule='references with dot segments against hierarchical bases, empty ones against opaque bases; non-trivial for relative references with a path'),
]
