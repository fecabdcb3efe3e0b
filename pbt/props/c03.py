import operator

from hypothesis import strategies as st

from pbt.gen import values as gv
from pbt.ref import refjson
from .common import Check, expect, size

OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def equality(case, note):
    from jschon import JSON
    vs = case
    nodes = [JSON(v) for v in vs]
    want = [[refjson.eq(a, b) for b in vs] for a in vs]
    note.nontrivial(size(vs[0]) > 1)
    note.label('equal pair' if want[0][1] else 'unequal pair')
    for i, a in enumerate(nodes):
        for j, b in enumerate(nodes):
            w = want[i][j]
            for left, right in ((a, b), (a, vs[j]), (vs[i], b)):
                expect((left == right) is w, '{!r} == {!r} is not {}', left, right, w)
                expect((left != right) is (not w), '{!r} != {!r} is not {}', left, right, not w)
    # membership uses the same equality
    arr = JSON(vs)
    for i, a in enumerate(nodes):
        first = next(j for j in range(len(vs)) if want[i][j])
        expect(a in arr and arr.index(a) == first, 'index of {!r}', a)
        expect(arr.count(a) == sum(want[i]), 'count of {!r}', a)


@st.composite
def triples(draw):
    v = draw(st.one_of(gv.values, gv.values, gv.numbers, gv.containers(20)))
    w = draw(gv.variant_of(v))
    return [v, w, draw(st.one_of(gv.variant_of(w), gv.variant_of(v), gv.values))]


def ordering(case, note):
    from jschon import JSON
    a, b = case
    note.nontrivial(True)
    note.label(refjson.typeof(a))
    for name, op in OPS.items():
        w = op(a, b)
        for left, right in ((JSON(a), JSON(b)), (JSON(a), b), (a, JSON(b))):
            expect(op(left, right) is w, '{!r} {} {!r} is not {}', left, name, right, w)


@st.composite
def ordered_pairs(draw):
    if draw(st.booleans()):
        a = draw(gv.numbers)
        b = draw(st.one_of(gv.numbers, st.sampled_from([a, a + 1, a - 1, -a] + ([float(a)] if abs(a) < 10 ** 300 else []) + [int(a)])))
    else:
        a = draw(gv.strings)
        b = draw(st.one_of(gv.strings, st.sampled_from([a, a + 'a', a[:-1], a.swapcase()])))
    return [a, b]


CHECKS = [
    Check('equality', triples, equality, 12000, rule='triples of equal and nearly equal values, compared pairwise as nodes and as plain data; non-trivial when compound'),
    Check('ordering', ordered_pairs, ordering, 3000, rule='pairs of numbers and of strings, near-equal ones included; all non-trivial'),
]
