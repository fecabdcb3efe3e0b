from hypothesis import strategies as st

from pbt.gen import patches as gp
from pbt.ref import refjson
from .common import Check, Violation, expect


def containers(v, into=None):
    into = [] if into is None else into
    if isinstance(v, list):
        into.append(v)
        for x in v:
            containers(x, into)
    elif isinstance(v, dict):
        into.append(v)
        for x in v.values():
            containers(x, into)
    return into


def isolation(case, note):
    from jschon import JSONPatch, JSONPatchOperation
    from jschon.exc import JSONPatchError
    doc, ops = refjson.copy(case['doc']), refjson.copy(case['ops'])
    doc0, ops0 = refjson.copy(doc), refjson.copy(ops)
    args = [JSONPatchOperation(**op) if case['form'] >> i & 1 else op for i, op in enumerate(ops)]
    patch = JSONPatch(*args)
    listed0 = refjson.copy(patch.aslist())
    results = []
    for _ in range(2):
        try:
            results.append((True, patch.evaluate(doc)))
        except JSONPatchError:
            results.append((False, None))
        expect(refjson.same(doc, doc0), 'evaluation changed the document to {!r}', doc)
        expect(refjson.same(ops, ops0), 'evaluation changed the operations to {!r}', ops)
        expect(refjson.same(patch.aslist(), listed0), 'evaluation changed the patch to {!r}', patch)
    (ok1, r1), (ok2, r2) = results
    note.label('applies' if ok1 else 'fails')
    note.nontrivial(any(op['op'] in ('copy', 'move') or isinstance(op.get('value'), (list, dict)) and op['value'] for op in ops))
    expect(ok1 == ok2 and (not ok1 or refjson.same(r1, r2)), 'a second evaluation gives {!r} not {!r}', r2, r1)
    if not ok1:
        return
    want = refjson.copy(r1)
    parts = containers(r1)
    expect(len({id(c) for c in parts}) == len(parts), 'a part of the result occurs twice in it')
    others = {id(c) for src in (doc, ops, patch.aslist(), [o.value for o in patch], r2) for c in containers(src)}
    expect(not any(id(c) in others for c in parts), 'the result shares a part with an input')
    # edit every part of the result: nothing else may show it
    for c in parts:
        c.append('edited') if isinstance(c, list) else c.update(edited=1)
    expect(refjson.same(doc, doc0) and refjson.same(ops, ops0) and refjson.same(patch.aslist(), listed0), 'editing the result changed an input')
    expect(refjson.same(r2, want), 'editing one result changed another')
    expect(refjson.same(patch.evaluate(doc), want), 'after editing the result the patch gives another one')


@st.composite
def cases(draw):
    c = draw(gp.docs_with_patches())
    c['form'] = draw(st.integers(0, 63))
    return c


CHECKS = [Check('isolation', cases, isolation, 6000,
                rule='patches evaluated twice and their results edited everywhere; non-trivial with copy/move or compound values')]
