from hypothesis import strategies as st

from pbt.gen import patches as gp
from pbt.gen import values as gv
from pbt.ref import refjson, refpatch, refpointer
from .common import Check, Violation, expect, raises

OPS = ['insert', 'insert', 'append', 'set', 'del', 'pop', 'popi', 'extend', 'iadd', 'reverse', 'clear', 'remove', 'slice']


def op_eq(a, b):
    return a['op'] == b['op'] and a['path'] == b['path'] and a.get('from') == b.get('from') and refjson.eq(a.get('value'), b.get('value'))


def standard(op):
    out = {'op': op['op'], 'path': op['path']}
    for k in ('value', 'from'):
        if k in op:
            out[k] = op[k]
    return out


def as_arg(op, form):
    from jschon import JSONPatchOperation, JSONPointer
    op = refjson.copy(op)
    if form == 0:
        return op
    if form == 1:
        return JSONPatchOperation(**op)
    kw = {'op': op['op'], 'path': JSONPointer(op['path'])}
    if 'value' in op:
        kw['value'] = op['value']
    if 'from' in op:
        kw['from_'] = op['from'] if form == 2 else JSONPointer(op['from'])
    return JSONPatchOperation(**kw)


def check_state(patch, model):
    from jschon import JSONPatch, JSONPatchOperation
    expect(len(patch) == len(model), 'length {} not {}', len(patch), len(model))
    expect(refjson.same(patch.aslist(), [standard(o) for o in model]), 'aslist {!r} not {!r}', patch.aslist(), model)
    for i, (o, m) in enumerate(zip(patch, model)):
        expect(isinstance(o, JSONPatchOperation) and refjson.same(o.asdict(), standard(m)), 'item {}', i)
        expect(patch[i] is o and patch[i - len(model)] is o, 'index {}', i)
        expect(o == m and o == as_arg(m, 1), 'operation {!r} unequal to its dict', m)
    for bad in (len(model), -len(model) - 1):
        with raises(IndexError, 'index'):
            patch[bad]
    again = JSONPatch(*patch.aslist())
    expect(again == patch and patch == again, 'rebuilt patch is unequal')
    expect(patch == model and not (patch != model), 'patch unequal to its list of dicts')


def history(case, note):
    from jschon import JSONPatch
    model = []
    patch = JSONPatch()
    if case['init']:
        patch = JSONPatch(*[as_arg(o, i % 4) for i, o in enumerate(case['init'])])
        model = list(case['init'])
    done = 0
    for step in case['steps']:
        name, i, op, form, more = OPS[step['what'] % len(OPS)], step['i'], step['op'], step['form'], step['more']
        arg = as_arg(op, form)
        margs = [op] + more
        args = [as_arg(o, form) for o in margs]

        def on(target, one, many):
            if name == 'insert':
                target.insert(i, one)
            elif name == 'append':
                target.append(one)
            elif name == 'set':
                target[i] = one
            elif name == 'del':
                del target[i]
            elif name == 'pop':
                return target.pop()
            elif name == 'popi':
                return target.pop(i)
            elif name == 'extend':
                target.extend(many)
            elif name == 'iadd':
                target += many
            elif name == 'reverse':
                target.reverse()
            elif name == 'clear':
                if i == 0:
                    target.clear()
            elif name == 'remove':
                if target:
                    del target[i % len(target)]
            elif name == 'slice':
                return target[i:step['j']]

        results = []
        for t, o, m in ((model, op, margs), (patch, arg, args)):
            try:
                results.append((True, on(t, o, m)))
            except IndexError:
                results.append((False, None))
        (mok, mres), (pok, pres) = results
        expect(mok == pok, '{}({}): ok {} but on a list {}', name, i, pok, mok)
        if name in ('pop', 'popi') and mok:
            expect(refjson.same(pres.asdict(), standard(mres)), '{} returned {!r}', name, pres)
        if name == 'slice':
            expect(isinstance(pres, JSONPatch), 'a slice is {}', type(pres))
            check_state(pres, mres)
            pres.append(op)             # a slice is a new patch
        done += mok
        check_state(patch, model)
    note.nontrivial(done >= 2 and len(model) >= 1)
    # the same effect on a document as the listed operations
    for p in (patch, JSONPatch(*patch.aslist())):
        try:
            want = refpatch.apply_all(case['doc'], model)
        except refpatch.PatchError:
            continue
        expect(refjson.same(p.evaluate(case['doc']), want), 'effect differs')


def equality(case, note):
    from jschon import JSONPatch
    a, b = case['a'], case['b']
    want = len(a) == len(b) and all(op_eq(x, y) for x, y in zip(a, b))
    note.label('equal' if want else 'unequal')
    note.nontrivial(bool(a) and bool(b))
    p = JSONPatch(*[as_arg(o, case['form'] % 4) for o in a])
    q = JSONPatch(*[as_arg(o, case['form'] // 4) for o in b])
    for x, y in ((p, q), (q, p), (p, b), (q, a)):
        expect((x == y) is want and (x != y) is (not want), '{!r} == {!r} is not {}', x, y, want)
    for x, y in zip(a, b):
        w = op_eq(x, y)
        expect((as_arg(x, 1) == as_arg(y, 2)) is w and (as_arg(x, 3) == y) is w and (as_arg(x, 3) != y) is (not w), 'operations {!r}, {!r}', x, y)


path = st.lists(st.sampled_from(['a', 'b', '0', '1', '-', 'a/b', '~', '']), max_size=3).map(refpointer.write)


# values with twins that Python, but not JSON, thinks equal
value = st.one_of(gv.json_values(4), gv.json_values(3, st.sampled_from(['a', 'b']), st.sampled_from([0, 1, True, False, 1.0, 0.0, None, ''])))


@st.composite
def operation(draw):
    name = draw(st.sampled_from(['add', 'remove', 'replace', 'move', 'copy', 'test']))
    op = {'op': name, 'path': draw(path)}
    if name in ('add', 'replace', 'test'):
        op['value'] = draw(value)
    elif name in ('move', 'copy'):
        op['from'] = draw(path)
    return op


@st.composite
def op_pairs(draw):
    a = draw(st.lists(operation(), max_size=3))
    b = [dict(o) for o in a]
    how = draw(st.integers(0, 9))
    if b and how:
        i = draw(st.integers(0, len(b) - 1))
        valued = [k for k in range(len(b)) if 'value' in b[k]]
        if how in (1, 7, 8, 9) and valued:
            i = draw(st.sampled_from(valued))
            b[i]['value'] = draw(gv.variant_of(b[i]['value']))
        elif how == 2:
            b[i]['path'] = draw(path)
        elif how == 3 and 'from' in b[i]:
            b[i]['from'] = draw(path)
        elif how == 4:
            b[i]['op'] = draw(st.sampled_from({'add': ['replace', 'test'], 'replace': ['add', 'test'], 'test': ['add'], 'move': ['copy'], 'copy': ['move'], 'remove': ['remove']}[b[i]['op']]))
        elif how == 5:
            b.reverse()
        elif how == 6:
            b.pop(i)
    return {'a': a, 'b': b, 'form': draw(st.integers(0, 15))}


step = st.fixed_dictionaries({'what': st.integers(0, 51), 'i': st.integers(-4, 4), 'j': st.integers(-4, 4), 'op': operation(), 'form': st.integers(0, 3),
                              'more': st.lists(operation(), max_size=2)})
CHECKS = [
    Check('history', lambda: st.fixed_dictionaries({'doc': gv.containers(6, st.sampled_from(['a', 'b', '0', '1', 'a/b', '~', ''])),
                                                    'init': st.lists(operation(), max_size=3), 'steps': st.lists(step, min_size=1, max_size=6)}),
          history, 2400, rule='histories of sequence operations on a patch against a list; non-trivial when 2 took effect and operations remain'),
    Check('equality', op_pairs, equality, 3000, rule='pairs of patches differing in at most one place; non-trivial when both have operations'),
]
