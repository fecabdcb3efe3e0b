from fractions import Fraction

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.gen import values as gv
from pbt.ref import refjson, refschema
from .common import Check, expect
from .schemas import DIALECTS, built

dialect = st.sampled_from(DIALECTS)
APPLIES = {'number': ('multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum'),
           'string': ('maxLength', 'minLength', 'pattern'), 'array': ('maxItems', 'minItems', 'uniqueItems', 'contains'),
           'object': ('maxProperties', 'minProperties', 'required', 'dependentRequired')}


def verdict(case, note):
    """The verdict of a schema made of assertion keywords on each of several instances."""
    from jschon import JSON
    d, doc = case['dialect'], case['schema']
    with built(doc, d) as schema:
        for v in case['instances']:
            want = refschema.evaluate(doc, v, d).valid
            got = schema.evaluate(JSON(v)).valid
            expect(got is want, '{}: {} against {!r} is {}, not {}', d, doc, v, got, want)
            applicable = any(k in APPLIES.get(refjson.typeof(v), ()) for k in doc) or any(k in ('type', 'enum', 'const') for k in doc)
            note.label('valid' if want else 'invalid', *(['inapplicable'] if not applicable else []))
            note.nontrivial(applicable)


# ---- numbers: the limit, and instances at and around it

@st.composite
def number_near(draw, lim):
    how = draw(st.integers(0, 9))
    if how == 0:
        return lim
    if how == 1:
        return -lim
    if how == 2:
        return float(lim) if abs(lim) < 1e300 else lim
    if how == 3:
        return int(lim)
    if how in (4, 5):
        import math
        f = float(lim) if abs(lim) < 1e300 else 1e300
        return math.nextafter(f, draw(st.sampled_from([-1e308, 1e308])))
    if how == 6:
        return int(lim) + draw(st.integers(-2, 2))
    if how == 7:
        return lim * draw(st.sampled_from([2, 3, 10, -1, 10 ** 30, 7 * 10 ** 27 + 1])) if isinstance(lim, int) else mul(lim, draw(st.integers(-50, 1000)))
    if how == 8:
        return mul(lim, draw(st.sampled_from([10 ** 5, 12345, 333, 0.1, 0.5, 1e10])))
    return draw(gv.numbers)


def mul(a, b):
    try:
        x = a * b
    except OverflowError:       # an integer beyond the range of floats
        return a
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return a
    return x


step = st.one_of(st.sampled_from([1, 2, 3, 7, 10, 0.1, 0.01, 0.5, 0.3, 1.1, 1e-8, 0.0001, 2.5, 1e10, 10 ** 20, 3.0, 1e-7, 5e-324, 1e308, 0.123456789]),
                 st.integers(1, 10 ** 6), st.floats(min_value=1e-12, max_value=1e12))


@st.composite
def numeric(draw):
    ks = draw(st.lists(st.sampled_from(['multipleOf', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum']), min_size=1, max_size=3, unique=True))
    doc, insts = {}, []
    for k in ks:
        lim = draw(step) if k == 'multipleOf' else draw(gv.numbers)
        doc[k] = lim
        for _ in range(draw(st.integers(1, 4))):
            insts.append(draw(number_near(lim)))
    insts.append(draw(gs.instances()))
    return {'dialect': draw(dialect), 'schema': doc, 'instances': insts}


# ---- lengths and counts

@st.composite
def counted(draw):
    k = draw(st.sampled_from(['Length', 'Items', 'Properties']))
    lo, hi = draw(st.integers(0, 6)), draw(st.integers(0, 6))
    doc = {}
    use = draw(st.integers(1, 3))
    if use & 1:
        doc['min' + k] = draw(st.sampled_from([lo, float(lo)]))
    if use & 2:
        doc['max' + k] = draw(st.sampled_from([hi, float(hi)]))
    insts = []
    for _ in range(4):
        n = max(0, draw(st.sampled_from([lo, hi])) + draw(st.integers(-1, 1)))
        if k == 'Length':
            insts.append(draw(st.text(st.one_of(st.sampled_from('ab \u00e9\u0301\U0001d4b3\U0001f600\u2028\x00'), st.characters(exclude_categories=('Cs',))), min_size=n, max_size=n)))
        elif k == 'Items':
            insts.append(draw(st.lists(gs.scalar, min_size=n, max_size=n)))
        else:
            insts.append(draw(st.dictionaries(gv.key, gs.scalar, min_size=n, max_size=n)))
    insts.append(draw(gs.instances()))
    return {'dialect': draw(dialect), 'schema': doc, 'instances': insts}


# ---- equality

@st.composite
def equality(draw):
    k = draw(st.sampled_from(['enum', 'const', 'uniqueItems']))
    v = draw(gv.json_values(8))
    if k == 'uniqueItems':
        items = draw(st.lists(st.one_of(gs.scalar, gv.json_values(4)), max_size=4))
        if items and draw(st.integers(0, 3)):
            items.insert(draw(st.integers(0, len(items))), draw(gv.variant_of(draw(st.sampled_from(items)))))
        return {'dialect': draw(dialect), 'schema': {k: draw(st.sampled_from([True, True, True, False]))},
                'instances': [items, [items, draw(gv.variant_of(items))], {'a': [1, 1]}, 'aa']}
    doc = {k: v} if k == 'const' else {k: draw(st.lists(gs.small_instance, max_size=3)) + [v]}
    return {'dialect': draw(dialect), 'schema': doc, 'instances': [v] + [draw(gv.variant_of(v)) for _ in range(3)] + [draw(gs.scalar)]}


# ---- types, names, patterns

types = st.one_of(st.just('integer'), st.sampled_from(gs.TYPES), st.lists(st.sampled_from(gs.TYPES), min_size=1, max_size=4, unique=True))


@st.composite
def names(draw):
    ks = st.one_of(st.sampled_from(gs.KEYS[:4]), st.sampled_from(gs.ODD_KEYS))
    doc = {}
    if draw(st.booleans()):
        doc['required'] = draw(st.lists(ks, max_size=3, unique=True))
    if not doc or draw(st.booleans()):
        doc['dependentRequired'] = draw(st.dictionaries(ks, st.lists(ks, max_size=3, unique=True), max_size=3))
    insts = [draw(st.dictionaries(ks, gs.scalar, max_size=5)) for _ in range(4)] + [draw(st.lists(ks, max_size=3)), draw(gs.instances())]
    return {'dialect': draw(dialect), 'schema': doc, 'instances': insts}


@st.composite
def counted_contains(draw):
    doc = {}
    if draw(st.integers(0, 9)):
        doc['contains'] = draw(st.sampled_from([True, False, {'type': 'integer'}, {'const': 1}, {'minimum': 2}, {'type': ['string', 'null']}]))
    if draw(st.integers(0, 2)):
        doc['minContains'] = draw(gs.counts)
    if draw(st.integers(0, 2)):
        doc['maxContains'] = draw(gs.counts)
    if draw(st.booleans()):
        doc = {k: doc[k] for k in draw(st.permutations(list(doc)))} if doc else doc
    insts = [draw(st.lists(st.sampled_from([1, 1, 1.0, True, 'a', None, 2, 3, 0, []]), max_size=6)) for _ in range(4)] + [draw(gs.instances())]
    return {'dialect': draw(dialect), 'schema': doc, 'instances': insts}


def case(schema, inst, n=4):
    return st.fixed_dictionaries({'dialect': dialect, 'schema': schema, 'instances': st.lists(inst, min_size=2, max_size=n)})


type_values = st.one_of(gv.scalars, gv.numbers, st.sampled_from([1.0, 1e20, 1e300, -0.0, 1.5, 2 ** 70, 1e16 + 1, 0.1, True, False, [], {}, 10 ** 320, -2 ** 1024, 1.7976931348623157e308, 4503599627370497.5, 5e-324, 2 ** 53 + 1, 0.9999999999999999]), gs.instance)
text_near = st.one_of(st.sampled_from(gs.STRINGS), st.text(st.sampled_from('ab1c.é/~x-'), max_size=5), st.text(st.sampled_from('aAb '), max_size=4))


# ---- sizes beyond those a person would write

@st.composite
def large(draw):
    import random
    rnd = random.Random(draw(st.integers(0, 2 ** 32)))
    n = draw(st.one_of(st.integers(5, 40), st.sampled_from([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])))
    kind = draw(st.sampled_from(['ints', 'texts', 'mixed', 'lists', 'objects']))
    make = {'ints': lambda i: i, 'texts': lambda i: f'k{i}', 'mixed': lambda i: [i, f'{i}', [i], {'a': i}, i + 0.5][i % 5], 'lists': lambda i: [i, [i]],
            'objects': lambda i: {'a': i, 'b': [f'{i}']}}[kind]
    items = [make(i) for i in range(n)]
    # values that Python's own == takes for one another, but JSON does not
    loose = [True, False, 0, 1, 1.0, [True], [False], [0], [1], {'a': True}, {'a': 1}, {'a': 0}, {'a': 1, 'b': ['1']}, {'a': True, 'b': ['1']}, [1, [1]], [1, [True]]]
    for x in rnd.sample(loose, draw(st.integers(0, 2))):
        if not any(refjson.eq(x, y) for y in items):
            items.append(x)
    rnd.shuffle(items)
    k = draw(st.sampled_from(['enum', 'enum', 'uniqueItems', 'uniqueItems', 'uniqueItems', 'const', 'Items', 'Length', 'Properties', 'required', 'contains']))
    if k == 'uniqueItems':
        insts = [items]
        for x in range(4):
            twin = draw(gv.variant_of(rnd.choice(items))) if x else rnd.choice(loose)
            copy = list(items)
            copy.insert(rnd.randrange(n + 1), twin)
            insts.append(copy)
        return {'dialect': draw(dialect), 'schema': {k: True}, 'instances': insts}
    if k == 'enum':
        return {'dialect': draw(dialect), 'schema': {k: items}, 'instances': [draw(gv.variant_of(rnd.choice(items))) for _ in range(3)] + [items[-1], make(n), *rnd.sample(loose, 4)]}
    if k == 'const':
        other = list(items)
        at = rnd.randrange(n)
        other[at] = draw(gv.variant_of(other[at]))
        return {'dialect': draw(dialect), 'schema': {k: items}, 'instances': [items, other, items[:-1]]}
    keys = [f'k{i}' for i in range(n)]
    if k == 'required':
        gone = dict.fromkeys(keys, 1)
        del gone[rnd.choice(keys)]
        names = keys if draw(st.booleans()) else keys[-1:]
        doc = {k: names} if draw(st.booleans()) else {'dependentRequired': {keys[0]: names}}
        return {'dialect': draw(dialect), 'schema': doc, 'instances': [dict.fromkeys(keys, 1), gone, {}]}
    if k == 'contains':
        hits = draw(st.integers(0, 3))
        inst = ['x'] * n + [1] * hits
        rnd.shuffle(inst)
        doc = {'contains': {'type': 'integer'}, **({'minContains': draw(gs.counts)} if draw(st.booleans()) else {}), **({'maxContains': draw(gs.counts)} if draw(st.booleans()) else {})}
        return {'dialect': draw(dialect), 'schema': doc, 'instances': [inst, [1] * n, ['x'] * n]}
    at = n + draw(st.integers(-1, 1))
    doc = {draw(st.sampled_from(['min', 'max'])) + k: at}
    ch = draw(st.sampled_from('a \u00e9\U0001f600'))
    insts = {'Items': [items, items[:-1], items + [0]], 'Length': [ch * (n + i) for i in (-1, 0, 1)],
             'Properties': [dict.fromkeys(keys, 1), dict.fromkeys(keys[1:], 1), dict.fromkeys([*keys, 'z'], 1)]}[k]
    return {'dialect': draw(dialect), 'schema': doc, 'instances': insts}


@st.composite
def combined(draw):
    d = draw(dialect)
    return {'dialect': d, 'schema': draw(gs.document(gs.Ctx(d, {'assert': 1}, width=4))), 'instances': draw(st.lists(gs.instances(), min_size=2, max_size=5))}


RULE = 'non-trivial when some keyword applies to the type of some instance'
CHECKS = [
    Check('numeric', numeric, verdict, 2400, rule='limits and instances at, next to and in exact ratio to them, of any magnitude; ' + RULE),
    Check('counted', counted, verdict, 2000, rule='lengths, item and property counts within one of the bounds, integral floats among them; ' + RULE),
    Check('equality', equality, verdict, 2000, rule='enum, const, uniqueItems with values equal or differing in one place; ' + RULE),
    Check('types', lambda: case(types.map(lambda t: {'type': t}), type_values, 6), verdict, 1600, rule='every type and union; ' + RULE),
    Check('names', names, verdict, 1600, rule='required and dependentRequired over odd names; ' + RULE),
    Check('pattern', lambda: case(gs.pattern.map(lambda p: {'pattern': p}), st.one_of(text_near, text_near, text_near, gs.scalar), 6), verdict, 1200,
          rule='patterns common to ECMA 262 and Python, decided by hand-written predicates; ' + RULE),
    Check('contains-bounds', counted_contains, verdict, 2000, rule='contains with minContains and maxContains in any order; ' + RULE),
    Check('large', large, verdict, 1000, rule='arrays, objects, strings and lists of values of up to 300 members, equal but for one place; ' + RULE),
    Check('combined', combined, verdict, 2400, rule='several assertion keywords at once on instances of every type; ' + RULE),
]
