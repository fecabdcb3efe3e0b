from hypothesis import strategies as st

from pbt.gen import values as gv
from pbt.ref import refjson
from .common import Check, Violation, check_tree, expect, node_at, plain_at

ASSUMPTIONS = ['indices are integers (the documented index types are int and str); slice assignment and deletion, and clear() of an object, are outside the domain']

LIST_OPS = ['set', 'del', 'insert', 'append', 'extend', 'iadd', 'pop', 'popi', 'reverse', 'clear']
DICT_OPS = ['set', 'del', 'pop', 'update', 'setdefault', 'popitem']


class Failed(Exception):
    pass


def model_op(target, op, i, k, v, vs):
    """Apply the operation to plain data; returns what was removed, if anything."""
    try:
        if isinstance(target, list):
            if op == 'set':
                target[i] = v
            elif op == 'del':
                del target[i]
            elif op == 'insert':
                target.insert(i, v)
            elif op == 'append':
                target.append(v)
            elif op in ('extend', 'iadd'):
                target.extend(vs)
            elif op == 'pop':
                return target.pop()
            elif op == 'popi':
                return target.pop(i)
            elif op == 'reverse':
                target.reverse()
            elif op == 'clear':
                target.clear()
        else:
            if op == 'set':
                target[k] = v
            elif op == 'del':
                del target[k]
            elif op == 'pop':
                return target.pop(k)
            elif op == 'update':
                target.update(vs)
            elif op == 'setdefault':
                target.setdefault(k, v)
            elif op == 'popitem':
                # any member may be taken; the caller looks which one it was
                if not target:
                    raise KeyError
    except LookupError as e:
        raise Failed from e


def real_op(node, op, i, k, v, vs):
    try:
        if node.type == 'array':
            if op == 'set':
                node[i] = v
            elif op == 'del':
                del node[i]
            elif op == 'insert':
                node.insert(i, v)
            elif op == 'append':
                node.append(v)
            elif op == 'extend':
                node.extend(vs)
            elif op == 'iadd':
                node += vs
            elif op == 'pop':
                return node.pop()
            elif op == 'popi':
                return node.pop(i)
            elif op == 'reverse':
                node.reverse()
            elif op == 'clear':
                node.clear()
        else:
            if op == 'set':
                node[k] = v
            elif op == 'del':
                del node[k]
            elif op == 'pop':
                return node.pop(k)
            elif op == 'update':
                node.update(vs)
            elif op == 'setdefault':
                node.setdefault(k, v)
            elif op == 'popitem':
                return node.popitem()
    except LookupError as e:
        raise Failed from e


def history(case, note):
    from jschon import JSON
    model = case['value']
    doc = JSON(refjson.copy(model))
    sources = []            # (JSON given as an argument, its value then)
    done = 0
    for op in case['ops']:
        conts = [p for p, v in refjson.walk(model) if isinstance(v, (list, dict))]
        locs = [p for p, v in refjson.walk(model)]
        for r in op['read']:
            n = node_at(doc, locs[r % len(locs)])
            n.path, n.value
        at = conts[op['at'] % len(conts)]
        target = plain_at(model, at)
        node = node_at(doc, at)
        isl = isinstance(target, list)
        names = LIST_OPS if isl else DICT_OPS
        name = names[op['op'] % len(names)]
        if isl:
            k, i = None, op['i']
            vs = [op['v'], 'second'] if op['i'] % 2 else []
        else:
            keys = list(target)
            k = keys[op['i'] % len(keys)] if keys and op['i'] % 3 else op['k']
            i = None
            vs = {k: op['v'], 'second': None} if op['i'] % 2 else {}
        v = op['v']
        real_v = refjson.copy(v)
        real_vs = refjson.copy(vs)
        if op['src'] == 1:
            real_v = JSON(real_v)
            sources.append((real_v, v))
        elif op['src'] == 2:            # a node of this very document
            src_at = locs[op['i'] % len(locs)]
            v = refjson.copy(plain_at(model, src_at))
            real_v = node_at(doc, src_at)
        elif op['src'] == 3:
            real_vs = JSON(real_vs) if op['i'] % 2 else real_vs
        before = refjson.copy(model)
        try:
            want = model_op(target, name, i, k, refjson.copy(v), refjson.copy(vs))
            failed = False
        except Failed:
            failed = True
        try:
            got = real_op(node, name, i, k, real_v, real_vs)
            real_failed = False
        except Failed:
            real_failed = True
        what = f'{name}({i if isl else k!r}) at {at}'
        expect(failed == real_failed, '{}: failed {} but on plain data {}', what, real_failed, failed)
        if failed:
            expect(refjson.same(model, before), 'model bug')
            note.label('failing op')
        elif name == 'popitem':
            kk, vv = got
            expect(kk in target and refjson.same(vv.value, target[kk]), '{} took {!r}', what, kk)
            del target[kk]
        elif name in ('pop', 'popi'):
            expect(refjson.same(got.value, want), '{} returned {!r} not {!r}', what, got.value, want)
        if not failed:
            done += 1
            if isl and i is not None and i < 0 and name in ('set', 'del', 'insert', 'popi'):
                note.label('negative index')
            if len(at) > 0:
                note.label('below the root')
        if op['src'] == 0 and isinstance(real_v, (list, dict)):
            real_v.append('x') if isinstance(real_v, list) else real_v.update(x='x')     # the caller's own copy
        if op['check'] or failed:
            check_tree(doc, model)
    note.nontrivial(done >= 2)
    check_tree(doc, model)
    for s, v in sources:
        check_tree(s, v)
        # and changing a source now does not show in the document
        if s.type == 'array':
            s.insert(0, 'changed')
        elif s.type == 'object':
            s['changed'] = 1
    check_tree(doc, model)


ops = st.fixed_dictionaries({
    'at': st.integers(0, 12), 'op': st.integers(0, 29), 'i': st.integers(-7, 7), 'k': gv.key,
    'v': gv.json_values(4), 'src': st.integers(0, 3), 'check': st.booleans(),
    'read': st.lists(st.integers(0, 20), max_size=3)})

small = gv.containers(8)

CHECKS = [
    Check('history', lambda: st.fixed_dictionaries({'value': small, 'ops': st.lists(ops, min_size=1, max_size=8)}),
          history, 5000, rule='documents put through up to 8 (thorough: the same, more of them) mutations with interleaved reads, compared with plain data after steps; non-trivial when at least 2 operations took effect'),
]
