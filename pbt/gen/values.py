"""Strategies for JSON values; every case they give is itself JSON."""
from hypothesis import strategies as st

KEYS = ['', 'a', 'b', 'c', 'foo', 'bar', '0', '1', '2', '01', '-', '-1', '+1', '1_0', '~', '~0', '~1', '/', 'a/b', 'm~n', '%', '%25',
        'é', '\U0001d4b3', '\n', ' ', '#', '$ref', '\u0661', '"', '\\', 'a b', '\x00', 'A', '10', '1.0', '1e0', 'null']

text = st.text(st.characters(exclude_categories=('Cs',)), max_size=6)
key = st.one_of(st.sampled_from(KEYS), st.sampled_from(KEYS[1:8]), text)

ints = st.one_of(st.integers(-3, 12), st.sampled_from([2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 10 ** 20, 10 ** 20 + 1, 2 ** 63, 10 ** 40, 10 ** 30, 10 ** 320, -2 ** 1024]), st.integers())
floats = st.one_of(st.sampled_from([0.0, -0.0, 1.0, 2.0, 0.1, 0.5, 1.5, -1.0, 1e20, 1e30, 1e-7, 5e-324, 1.7976931348623157e308, 3.0, 9007199254740992.0, 1e16]),
                   st.floats(allow_nan=False, allow_infinity=False))
numbers = st.one_of(ints, floats)
strings = st.one_of(st.sampled_from(['', 'a', 'b', 'foo', '1', 'true', 'null', '\U0001d4b3', 'é', 'e\u0301', '\u2028', '\x00', '\x7f', '"\\/', 'x' * 20]), text)
scalars = st.one_of(st.none(), st.booleans(), numbers, strings)


def json_values(max_leaves=12, keys=key, leaves=scalars):
    return st.recursive(leaves, lambda ch: st.one_of(
        st.lists(ch, max_size=4), st.dictionaries(keys, ch, max_size=4)), max_leaves=max_leaves)


def containers(max_leaves=12, keys=key, leaves=scalars):
    ch = json_values(max_leaves, keys, leaves)
    # now and then with indices of two digits, or three
    long = st.lists(leaves, min_size=9, max_size=14)
    return st.one_of([st.lists(ch, max_size=5), st.dictionaries(keys, ch, max_size=5)] * 12 + [long, long, st.integers(99, 112).map(lambda n: list(range(n)))])


values = json_values()
documents = st.one_of(containers(), containers(), containers(), values)


@st.composite
def near(draw, value):
    """A value equal to, or differing in one small way from, the given one."""
    return draw(variant_of(value))


def variant_of(v):
    opts = [st.just(v), st.just(v)]
    if v is None:
        opts += [st.sampled_from([False, 0, '', [], {}, 'null'])]
    elif isinstance(v, bool):
        opts += [st.sampled_from([int(v), float(v), not v, str(v).lower(), None])]
    elif isinstance(v, int):
        opts += [st.sampled_from([v + 1, -v, str(v)] + ([bool(v)] if v in (0, 1) else []) + ([float(v), float(v)] if abs(v) < 10 ** 300 else []))]
    elif isinstance(v, float):
        opts += [st.sampled_from([-v, str(v), v / 2] + ([int(v), int(v)] if v == v // 1 else [int(v)]) + ([bool(v)] if v in (0, 1) else []))]
    elif isinstance(v, str):
        opts += [st.sampled_from([v + 'a', v[:-1], v.upper(), v.swapcase(), [v], list(v), None])]
    elif isinstance(v, list):
        opts += [st.just(v[::-1]), st.just(v[:-1]), st.just(v + [None]), st.just({str(i): x for i, x in enumerate(v)})]
        if v:
            opts += [_replace_item(v)] * 4
    elif isinstance(v, dict):
        opts += [st.just(dict(reversed(list(v.items())))), st.just(list(v.values())), st.just(list(v)), st.just({**v, 'zz': None})]
        if v:
            opts += [_replace_member(v)] * 4 + [_drop_or_rename(v)]
    return st.one_of(opts)


@st.composite
def _replace_item(draw, v):
    i = draw(st.integers(0, len(v) - 1))
    return v[:i] + [draw(variant_of(v[i]))] + v[i + 1:]


@st.composite
def _replace_member(draw, v):
    k = draw(st.sampled_from(list(v)))
    items = [(kk, draw(variant_of(x)) if kk == k else x) for kk, x in v.items()]
    if draw(st.booleans()):
        items.reverse()
    return dict(items)


@st.composite
def _drop_or_rename(draw, v):
    k = draw(st.sampled_from(list(v)))
    new = draw(st.sampled_from([None, '', k + 'a', k.upper(), '0']))
    return {(new if kk == k else kk): x for kk, x in v.items() if not (kk == k and new is None)}
