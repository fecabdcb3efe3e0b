from hypothesis import strategies as st

from pbt.gen import patches as gp
from pbt.gen import values as gv
from pbt.ref import refjson, refpatch, refpointer
from .common import Check, Violation, expect

ASSUMPTIONS = ['operations have the members RFC 6902 requires; removing the root yields the null document, as the library defines']


def operation(op, form):
    from jschon import JSONPatchOperation, JSONPointer
    op = refjson.copy(op)
    if form % 4 == 1:
        return JSONPatchOperation(**op)
    if form % 4 == 2:
        kw = {'op': op['op'], 'path': JSONPointer(op['path'])}
        if 'value' in op:
            kw['value'] = op['value']
        if 'from' in op:
            kw['from_'] = JSONPointer(op['from'])
        return JSONPatchOperation(**kw)
    if form % 4 == 3:
        return {**op, 'comment': 'to be ignored'} if form % 8 == 3 else op
    return op


def evaluate(case, note):
    from jschon import JSONPatch
    from jschon.exc import JSONPatchError
    doc, ops = case['doc'], case['ops']
    try:
        want = refpatch.apply_all(doc, ops)
        failed = False
    except refpatch.PatchError as e:
        failed = str(e) or 'error'
    note.label('error' if failed else 'result')
    note.nontrivial(len(ops) > 1 or bool(failed))
    for op in ops:
        note.label(op['op'])
    patch = JSONPatch(*[operation(op, case['form'] + i) for i, op in enumerate(ops)])
    try:
        got = patch.evaluate(doc)
    except JSONPatchError as e:
        expect(failed, 'RFC 6902 gives {!r} but: {}', None if failed else want, e)
        return
    expect(not failed, 'RFC 6902 says {} but the result is {!r}', failed, got)
    expect(refjson.same(got, want), 'result {!r}, RFC 6902 gives {!r}', got, want)
    # operation by operation
    cur = refjson.copy(doc)
    for op in patch:
        cur = op.apply(cur)
    expect(refjson.same(cur, want), 'applying the operations one by one gives {!r} not {!r}', cur, want)


@st.composite
def cases(draw):
    c = draw(gp.docs_with_patches())
    c['form'] = draw(st.integers(0, 7))
    return c


@st.composite
def tests(draw):
    """Test operations whose value is the one there, or nearly."""
    leaves = st.sampled_from([0, 1, True, False, 1.0, 0.0, -0.0, None, '', 'a', 2 ** 53, 2.0 ** 53, 2 ** 53 + 1])
    doc = draw(st.one_of(gv.containers(8, st.sampled_from(['a', 'b', '0']), leaves), gv.json_values(8)))
    locs = [list(p) for p, _ in refjson.walk(doc)]
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        at = draw(st.sampled_from(locs))
        ops.append({'op': 'test', 'path': refpointer.write(at), 'value': draw(gv.variant_of(refpointer.evaluate(doc, at)))})
        if draw(st.integers(0, 3)) == 0:
            # a second look after a copy of it
            ops.append({'op': 'add', 'path': '', 'value': [doc, refjson.copy(ops[-1]['value'])]})
            ops.append({'op': 'test', 'path': '/1', 'value': refpointer.evaluate(doc, at)})
            break
    return {'doc': doc, 'ops': ops, 'form': draw(st.integers(0, 7))}


CHECKS = [
    Check('evaluate', cases, evaluate, 7000,
          rule='documents with patches of up to 6 operations at existing, new, overlapping and malformed locations; non-trivial with several operations or an error'),
    Check('tests', tests, evaluate, 3000,
          rule='test operations with the value at the location or one that differs in type, order, precision or one member; non-trivial with several operations or a failed test'),
]
