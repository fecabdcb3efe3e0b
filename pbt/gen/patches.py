"""Locations and patches that exist, nearly exist, nest or overlap."""
from hypothesis import strategies as st

from pbt.ref import refjson, refpatch, refpointer
from . import values as gv

BADINDEX = ['-', '01', '00', '+1', '-1', '-0', ' 1', '1 ', '1_0', '\u0661', '1.0', '1e0', '', 'a', '0x0', '9' * 30, '\uff11']


def path_choice():
    """An abstract choice, to be applied to whatever the document is by then."""
    return st.tuples(st.integers(0, 40), st.integers(0, 11), gv.key, st.integers(0, len(BADINDEX) - 1)).map(list)


def choose_path(value, choice):
    """A list of keys: an existing location, possibly varied."""
    n, how, key, bad = choice
    locs = [p for p, _ in refjson.walk(value)]
    loc = list(locs[n % len(locs)])
    v = refpointer.evaluate(value, loc)
    if how <= 3:
        return loc
    if how == 4:            # new last item / '-' / new member
        lists = [p for p, x in refjson.walk(value) if isinstance(x, list)]
        if lists and bad % 3:
            loc = list(lists[n % len(lists)])
            v = refpointer.evaluate(value, loc)
        if isinstance(v, list):
            return loc + ['-' if bad % 2 else str(len(v))]
        return loc + [key]
    if how == 5:
        return loc + [key]
    if how == 6:
        return loc + [BADINDEX[bad]]
    if how == 7:
        return loc[:-1] + [BADINDEX[bad]]
    if how == 8:
        return loc[:-1] + [key]
    if how == 9:
        return loc + [key, '0']
    if how == 10:           # past the end
        return loc + [str(len(v) + bad % 3)] if isinstance(v, list) else loc[:-1] + ['0']
    return loc + ['-', '0'] if bad % 3 else loc[:-1]


@st.composite
def patches(draw, value, max_ops=6):
    """A list of operations whose locations are chosen against the document as
    it will be at that point."""
    cur = refjson.copy(value)
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        name = draw(st.sampled_from(['add', 'add', 'remove', 'replace', 'move', 'move', 'copy', 'copy', 'test', 'test']))
        path = choose_path(cur, draw(path_choice()))
        op = {'op': name, 'path': refpointer.write(path)}
        if name in ('add', 'replace'):
            op['value'] = draw(gv.json_values(4))
        elif name == 'test':
            try:
                at = refpointer.evaluate(cur, path)
                op['value'] = refjson.copy(at) if draw(st.integers(0, 3)) else draw(gv.variant_of(at))
            except refpointer.NoSuch:
                op['value'] = draw(gv.scalars)
        elif name in ('move', 'copy'):
            src = choose_path(cur, draw(path_choice()))
            rel = draw(st.integers(0, 6))
            if rel == 0:
                src = path[:-1]
            elif rel == 1:
                src = path
            elif rel == 2 and src:
                op['path'] = refpointer.write(src + draw(st.sampled_from([['a'], ['0'], ['-']])))
            elif rel == 3 and src:
                # beside it, under a key that its own is the beginning of
                op['path'] = refpointer.write(src[:-1] + [src[-1] + draw(st.sampled_from(['b', '0', '~', '/', '-']))])
            op['from'] = refpointer.write(src)
        if draw(st.integers(0, 3)) == 0:            # member order does not matter
            op = dict(reversed(list(op.items())))
        try:
            cur = refpatch.apply(cur, op)
        except refpatch.PatchError:
            if draw(st.integers(0, 2)):             # mostly keep patches that apply
                continue
            ops.append(op)
            break
        ops.append(op)
    return ops


@st.composite
def docs_with_patches(draw, max_ops=6):
    value = draw(st.one_of(gv.containers(10, st.sampled_from(['a', 'b', '0', '1', '-', '', 'a/b', 'm~n', 'ab', '10'])), gv.documents))
    return {'doc': value, 'ops': draw(patches(value, max_ops))}
