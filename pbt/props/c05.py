from hypothesis import strategies as st

from pbt.gen import patches as gp
from pbt.gen import values as gv
from pbt.ref import refjson, refpatch, refpointer
from .common import Check, Violation, check_tree, expect, node_at, plain_at


def history(case, note):
    from jschon import JSON, JSONPointer
    from jschon.exc import JSONError
    model = case['value']
    doc = JSON(refjson.copy(model))
    hits = errors = 0
    for op in case['ops']:
        locs = [p for p, _ in refjson.walk(model)]
        for r in op['read']:
            n = node_at(doc, locs[r % len(locs)])
            n.path, n.value
        at = locs[op['at'] % len(locs)]
        node = node_at(doc, at)
        sub = plain_at(model, at)
        path = gp.choose_path(sub, op['choice'])
        text = refpointer.write(path)
        try:
            new = refpatch.apply(sub, {'op': op['op'], 'path': text, 'value': op['v']})
            failed = False
        except refpatch.PatchError:
            failed = True
        v = refjson.copy(op['v'])
        arg = JSON(v) if op['form'] & 1 else v
        ptr = JSONPointer(text) if op['form'] & 2 else text
        what = f'{op["op"]}({text!r}) at {at}'
        real = {'add': lambda: node.add(ptr, arg), 'remove': lambda: node.remove(ptr), 'replace': lambda: node.replace(ptr, arg)}[op['op']]
        try:
            real()
            real_failed = False
        except JSONError:
            real_failed = True
        expect(failed == real_failed, '{}: error {} but RFC 6902 says {}', what, real_failed, failed)
        if failed:
            errors += 1
            note.label('error')
        else:
            hits += 1
            note.label(op['op'] + (' root' if not path else ''))
            if not at:
                model = new
            else:
                parent = plain_at(model, at[:-1])
                parent[int(at[-1]) if isinstance(parent, list) else at[-1]] = new
        if op['check'] or failed:
            check_tree(doc, model)
        if isinstance(arg, JSON):
            check_tree(arg, op['v'])
    check_tree(doc, model)
    note.nontrivial(hits >= 1)


ops = st.fixed_dictionaries({
    'op': st.sampled_from(['add', 'add', 'remove', 'replace']), 'at': st.one_of(st.just(0), st.just(0), st.integers(0, 12)),
    'choice': gp.path_choice(), 'v': gv.json_values(4), 'form': st.integers(0, 3), 'check': st.booleans(),
    'read': st.lists(st.integers(0, 20), max_size=2)})

def shift(case, note):
    """Only some of the nodes have been asked for their paths when the tree changes."""
    from jschon import JSON
    model = case['value']
    doc = JSON(refjson.copy(model))
    for step in case['steps']:
        locs = [p for p, v in refjson.walk(model)]
        for r in step['read']:
            node_at(doc, locs[-1 - r % len(locs)]).path
        arrays = [(p, v) for p, v in refjson.walk(model) if isinstance(v, list) and v]
        if not arrays:
            break
        at, arr = arrays[step['array'] % len(arrays)]
        i = step['index'] % len(arr)
        here = refpointer.write(list(at) + [str(i)])
        moved = any(isinstance(x, (list, dict)) and x for x in arr[i + 1:])
        if step['insert']:
            doc.add(here, None)
            arr.insert(i, None)
        else:
            doc.remove(here)
            del arr[i]
        if moved or step['insert'] and isinstance(arr[i + 1], (list, dict)) and arr[i + 1]:
            note.nontrivial()
            note.label('inserted' if step['insert'] else 'removed')
        if step['check']:
            check_tree(doc, model)
    check_tree(doc, model)


def nests(depth):
    inner = st.one_of(st.integers(0, 9), nests(depth - 1)) if depth else st.integers(0, 9)
    return st.one_of(st.lists(inner, min_size=1, max_size=3), st.lists(inner, min_size=1, max_size=3), st.dictionaries(st.sampled_from(['a', 'b', '0', '1']), inner, min_size=1, max_size=2))


steps = st.fixed_dictionaries({'read': st.lists(st.integers(0, 30), max_size=3), 'array': st.integers(0, 5), 'index': st.integers(0, 3), 'insert': st.booleans(), 'check': st.sampled_from([False, False, True])})

CHECKS = [
    Check('shift', lambda: st.fixed_dictionaries({'value': nests(3), 'steps': st.lists(steps, min_size=1, max_size=4)}), shift, 3000,
          rule='nested arrays and objects of which a few nodes were asked for their paths before an insertion or a removal; non-trivial when containers moved along'),
    Check('history', lambda: st.fixed_dictionaries({'value': st.one_of(gv.containers(10), gv.documents), 'ops': st.lists(ops, min_size=1, max_size=6)}),
          history, 6000, rule='documents put through up to 6 in-place add/remove/replace operations on any node, at existing, new, missing and malformed locations; non-trivial when at least one took effect'),
]
