from hypothesis import strategies as st

from pbt.gen import patches as gp
from pbt.gen import values as gv
from pbt.ref import refjson, refpointer
from .common import Check, Violation, expect, keys_of, node_at, raises


def text_of(up, over, keys):
    return str(up) + (f'{over:+d}' if over else '') + ('#' if keys is None else refpointer.write(keys))


def grammar(case, note):
    from jschon import RelativeJSONPointer
    from jschon.exc import RelativeJSONPointerMalformedError

    class OwnError(RelativeJSONPointerMalformedError):
        pass

    class OwnPointer(RelativeJSONPointer):
        malformed_exc = OwnError

    text = case
    try:
        up, over, keys = refpointer.parse_relative(text)
    except refpointer.Malformed:
        note.label('malformed')
        note.nontrivial(text[:1].isdigit())
        with raises(RelativeJSONPointerMalformedError, f'malformed {text!r}'):
            RelativeJSONPointer(text)
        with raises(OwnError, f'malformed {text!r} for a subclass with its own exception'):
            OwnPointer(text)
        return
    note.label('well-formed')
    note.nontrivial(bool(over) or bool(keys))
    p = RelativeJSONPointer(text)
    expect(str(p) == text, 'text of {!r}: {!r}', text, str(p))
    expect((p.up, p.over, p.index) == (up, over, keys is None), 'parts of {!r}: {}', text, (p.up, p.over, p.index))
    expect((p.path is None) if keys is None else keys_of(p.path) == keys, 'path of {!r}: {!r}', text, p.path)
    q = RelativeJSONPointer(str(p))
    expect(p == q and hash(p) == hash(q), 'reparsed {!r} is unequal', text)


def parts(case, note):
    from jschon import JSONPointer, RelativeJSONPointer
    (up, over, keys), (up2, over2, keys2) = case
    note.nontrivial(bool(over) or keys is None)
    made = []
    for u, o, k in case:
        kw = {}
        if u or o:
            kw['up'] = u
        if o:
            kw['over'] = o
        if k is None:
            kw['ref'] = '#'
        elif k:
            kw['ref'] = JSONPointer(k)
        p = RelativeJSONPointer(**kw)
        expect(str(p) == text_of(u, o, k), 'text of {}: {!r}', kw, str(p))
        q = RelativeJSONPointer(str(p))
        expect(p == q and hash(p) == hash(q), 'built and parsed {!r} are unequal', str(p))
        made.append(p)
    same = case[0] == case[1]
    expect((made[0] == made[1]) is same and (made[0] != made[1]) is (not same), '{} == {} is {}', case[0], case[1], not same)


def evaluate(case, note):
    from jschon import JSON, RelativeJSONPointer
    from jschon.exc import RelativeJSONPointerReferenceError

    class OwnError(RelativeJSONPointerReferenceError):
        pass

    class OwnPointer(RelativeJSONPointer):
        reference_exc = OwnError

    value = case['value']
    doc = JSON(value)
    locs = [p for p, _ in refjson.walk(value)]
    for at_n, up, over, choice, use in case['steps']:
        at = list(locs[-1 - at_n % len(locs)])
        # choose the trailing pointer against the node that the first part reaches
        if use == 0:
            keys = None
        else:
            try:
                _, where = refpointer.evaluate_relative(value, at, up, over, [])
                keys = gp.choose_path(refpointer.evaluate(value, where), choice)
            except refpointer.NoSuch:
                keys = [choice[2]]
        text = text_of(up, over, keys)
        try:
            want = refpointer.evaluate_relative(value, at, up, over, keys)
        except refpointer.NoSuch:
            want = None
        note.label('none' if want is None else want[0])
        note.nontrivial(want is not None and (up > 0 or over != 0))
        node = node_at(doc, at)
        try:
            got = RelativeJSONPointer(text).evaluate(node)
        except RelativeJSONPointerReferenceError as e:
            expect(want is None, '{!r} from {} exists but: {}', text, at, e)
            with raises(OwnError, f'{text!r} from {at} for a subclass with its own exception'):
                OwnPointer(text).evaluate(node)
            continue
        expect(want is not None, '{!r} from {} does not exist but gave {!r}', text, at, got)
        if want[0] == 'node':
            expect(got is node_at(doc, want[1]), '{!r} from {} gave another node: {!r}', text, at, got)
        else:
            expect(type(got) is type(want[1]) and got == want[1], '{!r} from {} gave {!r} not {!r}', text, at, got, want[1])


near = st.one_of(
    st.lists(st.sampled_from(['0', '1', '12', '+1', '-1', '+0', '-0', '+01', '#', '/', 'a', '~0', '~1', '~', '00', '01', '+', '-', ' ', '\u0661', '\n', '10']), max_size=6).map(''.join),
    st.tuples(st.sampled_from(['0', '1', '2', '10', '01', '']), st.sampled_from(['', '', '+1', '-1', '+10', '-12', '+0', '-0', '+01', '+-1', '+', '+1+1']),
              st.sampled_from(['', '#', '/', '/a', '/a/b', '/~0~1', '/~', 'a', '#/', '/#', '##', '#\n', '/\n', '/0'])).map(''.join),
)
part = st.tuples(st.integers(0, 12), st.integers(-12, 12), st.one_of(st.none(), st.lists(gv.key, max_size=3))).map(list)


@st.composite
def two_parts(draw):
    a = draw(part)
    b = list(a)
    i = draw(st.integers(0, 3))
    if i < 3:
        b[i] = draw(part)[i]
    return [a, b]


arrays = gv.json_values(14, st.sampled_from(['a', 'b', '0', '1', '', 'a/b', 'm~n', '~']))

CHECKS = [
    Check('grammar', lambda: near, grammar, 6000, rule='strings at and around the grammar; non-trivial when adjusted, with a path, or malformed after a digit'),
    Check('parts', two_parts, parts, 3000, rule='pointers built from parts, in pairs differing in at most one part; non-trivial when adjusted or an index pointer'),
    Check('evaluate', lambda: st.fixed_dictionaries({
        'value': st.one_of(arrays, gv.containers(14)),
        'steps': st.lists(st.tuples(st.integers(0, 30), st.integers(0, 4), st.sampled_from([0, 0, 1, -1, 2, -2, 3, -3, 4]), gp.path_choice(), st.integers(0, 3)).map(list),
                          min_size=1, max_size=6)}), evaluate, 6000,
        rule='every kind of relative pointer from nodes at any depth; non-trivial when it leads somewhere after climbing or adjusting'),
]
