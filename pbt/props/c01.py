import collections
import collections.abc
import copy
import datetime
import decimal
import fractions
import types

from hypothesis import strategies as st

from pbt.gen import values as gv
from pbt.ref import refjson
from .common import Check, check_tree, depth, expect, raises, size

ASSUMPTIONS = ['bytes-like objects and range, which are Python Sequences, and non-string keys are outside the domain']


class MySeq(collections.abc.Sequence):
    def __init__(self, items): self.items = items
    def __len__(self): return len(self.items)
    def __getitem__(self, i): return self.items[i]


class MyMap(collections.abc.Mapping):
    def __init__(self, d): self.d = d
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]


SEQ = [list, tuple, collections.deque, collections.UserList, MySeq]
MAP = [dict, collections.OrderedDict, collections.UserDict, types.MappingProxyType, MyMap]


def wrap(v, plan, pos=None):
    """The value rebuilt with container types chosen by the plan (a list of ints)."""
    pos = pos if pos is not None else [0]
    if isinstance(v, (list, dict)):
        k = plan[pos[0] % len(plan)] if plan else 0
        pos[0] += 1
        if isinstance(v, list):
            return SEQ[k % 5]([wrap(x, plan, pos) for x in v])
        return MAP[k % 5]({kk: wrap(x, plan, pos) for kk, x in v.items()})
    return v


def mutate_source(v):
    """Empties every mutable plain container of the source."""
    if isinstance(v, list):
        for x in v:
            mutate_source(x)
        v.append('changed')
    elif isinstance(v, dict):
        for x in v.values():
            mutate_source(x)
        v['changed'] = 1


def represent(case, note):
    from jschon import JSON
    value, plan = case['value'], case['plan']
    source = wrap(value, plan)
    before = copy.deepcopy(value)
    doc = JSON(source)
    note.nontrivial(size(value) > 2)
    note.label(f'depth {min(depth(value), 4)}')
    check_tree(doc, value)
    for path, v in refjson.walk(value):
        node = doc
        for k in path:
            node = node[int(k)] if node.type == 'array' else node[k]
        expect(bool(node) == bool(v), 'truth value of {!r}', v)
        if isinstance(v, (str, list, dict)):
            expect(len(node) == len(v), 'length of {!r}', v)
        else:
            with raises(TypeError, f'len of {v!r}'):
                len(node)
        if isinstance(v, list):
            items = list(node)
            expect(len(items) == len(v) and all(a is b for a, b in zip(items, [node[i] for i in range(len(v))])), 'iteration of {!r}', v)
            if v:
                expect(node[-1] is items[-1] and node[-len(v)] is items[0], 'negative index of {!r}', v)
            expect([x.value for x in node[1:3]] == v[1:3], 'slice of {!r}', v)
            for bad in (len(v), -len(v) - 1):
                with raises(IndexError, f'index {bad} of {v!r}'):
                    node[bad]
        elif isinstance(v, dict):
            expect(list(node) == list(v) and list(node.keys()) == list(v), 'iteration of {!r}', v)
            expect(all(n is node[k] and k == kk for (k, n), kk in zip(node.items(), v)), 'items of {!r}', v)
            expect(all(k in node for k in v) and 'no such key' not in node, 'membership in {!r}', v)
            expect(node.get('no such key') is None, 'get of a missing member')
            with raises(KeyError, 'missing member'):
                node['no such key']
    # the source is untouched and not aliased
    expect(refjson.same(value, before), 'the source value was modified')
    if not plan:
        mutate_source(value)
        check_tree(doc, before)
    # plain strings, mappings... built twice are equal documents
    expect(JSON(before) == doc, 'equal source, unequal document')


BAD = {
    'object': object, 'set': lambda: {1}, 'frozenset': lambda: frozenset('a'), 'complex': lambda: 1j,
    'decimal': lambda: decimal.Decimal('1'), 'function': lambda: (lambda: 0), 'iterator': lambda: iter([1]),
    'generator': lambda: (x for x in [1]), 'class': lambda: int, 'dict view': lambda: {'a': 1}.keys(),
    'fraction': lambda: fractions.Fraction(1, 2), 'date': lambda: datetime.date(2020, 1, 1), 'counter values': lambda: collections.Counter('a').values(),
    'map': lambda: map(str, [1]), 'zip': lambda: zip([1], [2]), 'items': lambda: {'a': 1}.items(), 'exception': lambda: ValueError(1),
    'ellipsis': lambda: ..., 'notimplemented': lambda: NotImplemented,
}


def refuse(case, note):
    from jschon import JSON
    value, at, kind = case['value'], case['at'], case['kind']
    locs = [p for p, _ in refjson.walk(value)]
    path = locs[at % len(locs)]
    bad = BAD[kind]()
    if not path:
        source = bad
    else:
        source = value
        parent = source
        for k in path[:-1]:
            parent = parent[int(k)] if isinstance(parent, list) else parent[k]
        parent[int(path[-1]) if isinstance(parent, list) else path[-1]] = bad
    note.nontrivial(len(path) > 0)
    with raises(TypeError, f'{kind} at {path}'):
        JSON(source)


CHECKS = [
    Check('represent', lambda: st.fixed_dictionaries({
        'value': st.one_of(gv.documents, gv.containers(30)),
        'plan': st.one_of(st.just([]), st.lists(st.integers(0, 4), min_size=1, max_size=5))}),
        represent, 6000, rule='nested values with 5 sequence and 5 mapping classes; non-trivial when the value has more than 2 nodes'),
    Check('refuse', lambda: st.fixed_dictionaries({
        'value': gv.documents, 'at': st.integers(0, 30), 'kind': st.sampled_from(sorted(BAD))}),
        refuse, 2000, rule='a non-JSON object planted somewhere in a value; non-trivial when below the root'),
]
