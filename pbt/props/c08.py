import collections
import types

from hypothesis import strategies as st

from pbt.gen import patches as gp
from pbt.gen import values as gv
from pbt.ref import refjson, refpointer
from .common import Check, Violation, expect, node_at, raises

ASSUMPTIONS = ['documents nested less deeply than the Python recursion limit']


def evaluate(case, note):
    from jschon import JSON, JSONPointer
    from jschon.exc import JSONPointerReferenceError

    class OwnError(JSONPointerReferenceError):
        pass

    class OwnPointer(JSONPointer):
        reference_exc = OwnError

    value = case['value']
    doc = JSON(value)
    frozen = freeze(value, case['plan'])
    paths = [gp.choose_path(value, c) for c in case['choices']] + [case['keys']]
    for path in paths:
        try:
            want = refpointer.evaluate(value, path)
            exists = True
        except refpointer.NoSuch:
            exists = False
        note.label('exists' if exists else 'missing')
        note.nontrivial(len(path) > 1 or not exists)
        p = JSONPointer(path)
        for what, target, ref in (('plain data', value, lambda: want), ('nodes', doc, lambda: node_at(doc, path)),
                                  ('other containers', frozen, lambda: follow(frozen, path))):
            try:
                got = p.evaluate(target)
                ok = True
            except JSONPointerReferenceError as e:
                ok = False
                expect(not exists, '{!r} exists in {} but: {}', path, what, e)
            if ok:
                expect(exists, '{!r} does not exist in {} but gave {!r}', path, what, got)
                expect(got is ref(), '{!r} in {} gave another object', path, what)
        if exists:
            expect(OwnPointer(path).evaluate(value) is want, '{!r} in a subclass', path)
        else:
            with raises(OwnError, f'{path!r} does not exist, for a subclass with its own exception'):
                OwnPointer(path).evaluate(doc)
        if exists:      # from an inner node, relative to it
            for cut in range(len(path) + 1):
                inner = node_at(doc, path[:cut])
                expect(p[cut:].evaluate(inner) is node_at(doc, path), '{!r} from inner node {}', path, cut)


def follow(v, path):
    for k in path:
        v = v[k] if isinstance(v, collections.abc.Mapping) else v[int(k)]
    return v


def freeze(v, plan, pos=None):
    pos = pos if pos is not None else [0]
    if isinstance(v, (list, dict)):
        k = plan[pos[0] % len(plan)]
        pos[0] += 1
        if isinstance(v, list):
            return [tuple, collections.UserList, collections.deque][k % 3]([freeze(x, plan, pos) for x in v])
        return [types.MappingProxyType, collections.OrderedDict, collections.UserDict][k % 3]({kk: freeze(x, plan, pos) for kk, x in v.items()})
    return v


def scalars(case, note):
    """Nothing lies below a scalar, a string included."""
    from jschon import JSON, JSONPointer
    from jschon.exc import JSONPointerReferenceError
    v, keys = case['v'], case['keys']
    note.nontrivial(isinstance(v, str) and bool(v))
    for target in (v, JSON(v)):
        expect(JSONPointer().evaluate(target) is target, 'the empty pointer')
        try:
            got = JSONPointer(keys).evaluate(target)
        except JSONPointerReferenceError:
            continue
        raise Violation(f'{keys} in {target!r} gave {got!r}')


CHECKS = [
    Check('evaluate', lambda: st.fixed_dictionaries({
        'value': st.one_of(gv.containers(12), gv.documents), 'choices': st.lists(gp.path_choice(), min_size=1, max_size=4),
        'keys': st.lists(st.one_of(st.sampled_from(gp.BADINDEX + ['0', '1', '9' * 5000]), gv.key), max_size=3),
        'plan': st.lists(st.integers(0, 2), min_size=1, max_size=4)}), evaluate, 7000,
        rule='existing and nearly existing locations of documents as plain data, as nodes, and in 6 other container classes; non-trivial when missing or below the first level'),
    Check('scalars', lambda: st.fixed_dictionaries({'v': gv.scalars, 'keys': st.lists(st.sampled_from(['0', '1', '', 'a', '-', '-1']), min_size=1, max_size=2)}),
          scalars, 800, rule='pointers into scalars; non-trivial for strings'),
]
