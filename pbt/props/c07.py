import operator

from hypothesis import strategies as st

from pbt.gen import values as gv
from pbt.ref import refpointer
from .common import Check, expect, keys_of, raises


def build(form, keys):
    from jschon import JSONPointer
    if form == 0:
        return refpointer.write(keys)
    if form == 1:
        return list(keys)
    if form == 2:
        return JSONPointer(keys)
    if form == 3:
        return tuple(keys)
    return iter(list(keys))


def algebra(case, note):
    from jschon import JSONPointer
    parts = case['parts']           # [[form, keys]]
    flat = [k for _, ks in parts for k in ks]
    args = [build(f, ks) for f, ks in parts]
    p = JSONPointer(*args)
    note.nontrivial(len(flat) >= 2)
    expect(keys_of(p) == flat and list(p) == flat and len(p) == len(flat), 'keys of the concatenation: {!r}', list(p))
    expect(str(p) == refpointer.write(flat), 'text of the concatenation')
    for a, (f, ks) in zip(args, parts):
        if f == 1:
            expect(a == ks, 'an argument list was changed')
        elif f == 2:
            expect(list(a) == ks, 'an argument pointer was changed')
            # and the pieces stay apart
    # the / operator
    q = JSONPointer()
    for f, ks in parts:
        old, oldkeys = q, list(q)
        if f == 0:
            for k in ks:
                q = q / k
        else:
            q = q / build(f, ks)
        expect(list(old) == oldkeys and (not ks or q is not old), '/ changed its operand')
    expect(list(q) == flat and q == p and hash(q) == hash(p), '/ gives {!r}', list(q))
    for bad in (None, 1, 1.5):
        with raises(TypeError, f'pointer / {bad!r}'):
            p / bad
        with raises(TypeError, f'JSONPointer({bad!r})'):
            JSONPointer(bad)
    # indexing and slicing
    n = len(flat)
    for i in (case['i'], case['j'], 0, -1):
        if -n <= i < n:
            expect(p[i] == flat[i], 'index {}', i)
        else:
            with raises(IndexError, f'index {i}'):
                p[i]
    i, j, s = case['i'], case['j'], case['step']
    for sl in (slice(i, j), slice(i, None), slice(None, j), slice(i, j, s), slice(None, None, -1)):
        got = p[sl]
        expect(isinstance(got, JSONPointer) and list(got) == flat[sl], 'slice {}: {!r}', sl, got)
    expect(list(reversed(p)) == flat[::-1], 'reversed')
    for k in flat[:3] + ['no such key']:
        expect((k in p) == (k in flat) and p.count(k) == flat.count(k), 'membership of {!r}', k)
    if flat:
        expect(p.index(flat[-1]) == flat.index(flat[-1]), 'index()')
    expect(bool(p) == bool(flat), 'truth')
    expect(list(p) == flat and str(p) == refpointer.write(flat), 'the pointer was changed')


def relation(case, note):
    from jschon import JSONPointer
    a, b = case
    p, q = JSONPointer(a), JSONPointer(refpointer.write(b))
    prefix = b[:len(a)] == a
    rprefix = a[:len(b)] == b
    note.nontrivial(bool(a) and bool(b) and (prefix or rprefix or a[0] == b[0]))
    note.label('equal' if a == b else 'prefix' if prefix else 'extension' if rprefix else 'unrelated')
    table = {'==': (p == q, a == b), '!=': (p != q, a != b), '<=': (p <= q, prefix), '<': (p < q, prefix and a != b),
             '>=': (p >= q, rprefix), '>': (p > q, rprefix and a != b)}
    for op, (got, want) in table.items():
        expect(got is want, '{!r} {} {!r} is {}', a, op, b, got)
    if a == b:
        expect(hash(p) == hash(q), 'equal pointers, unequal hashes')
    expect((q in {p: 1}) == (a == b) and len({p, q}) == (1 if a == b else 2), 'dict lookup')
    # an instance of a subclass is a pointer like any other
    sub = type('Pointer', (JSONPointer,), {})(b)
    expect((p == sub) is (sub == p) is (a == b) and (p != sub) is (a != b), 'equality with a subclass instance')
    expect((p <= sub, p < sub, sub <= p, sub < p) == (prefix, prefix and a != b, rprefix, rprefix and a != b), 'order with a subclass instance')
    expect((sub in {p: 1}) == (a == b) and (a != b or hash(sub) == hash(p)), 'hash of a subclass instance')
    for other in (refpointer.write(a), a, tuple(a), None):
        expect((p == other) is False and (p != other) is True, 'a pointer equals {!r}', other)
        for op in (operator.le, operator.lt, operator.ge, operator.gt):
            with raises(TypeError, f'pointer {op.__name__} {other!r}'):
                op(p, other)


keys = st.lists(st.one_of(gv.key, st.sampled_from(['a', 'b'])), max_size=4)


@st.composite
def related(draw):
    a = draw(keys)
    how = draw(st.integers(0, 5))
    if how == 0:
        b = list(a)
    elif how == 1:
        b = a + draw(keys)
    elif how == 2:
        b = a[:draw(st.integers(0, len(a)))]
    elif how == 3 and a:
        i = draw(st.integers(0, len(a) - 1))
        b = a[:i] + [draw(st.sampled_from([a[i] + '/', a[i].upper(), a[i] + 'x', a[i][:-1], '0' + a[i]]))] + a[i + 1:]
    elif how == 4:
        b = a[1:] + a[:1]
    else:
        b = draw(keys)
    return [a, b] if draw(st.booleans()) else [b, a]


CHECKS = [
    Check('algebra', lambda: st.fixed_dictionaries({
        'parts': st.lists(st.tuples(st.integers(0, 4), keys).map(list), max_size=4),
        'i': st.integers(-6, 6), 'j': st.integers(-6, 6), 'step': st.sampled_from([1, 2, 3, -1, -2])}), algebra, 4000,
        rule='concatenations of strings, lists, tuples, iterators and pointers, sliced and indexed, against key lists; non-trivial with 2 or more keys'),
    Check('relation', related, relation, 6000, rule='pairs of equal, prefixing, extending, and slightly different pointers; non-trivial when related and non-empty'),
]
