"""C30: formats enabled over several catalogs, against a model of what each schema was created under."""
import itertools
import json
from collections import Counter

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refpointer, refschema
from .c26 import agree, observed
from .common import Check, expect
from .schemas import DIALECTS, UNSPECIFIED, annotation

MAX_STEPS = 2500
CUSTOM = ['date', 'email', 'frobnicate']
TYPES = ['null', 'boolean', 'number', 'string', 'array', 'object']


def refuses(how, data):
    """What a validator makes of a value: `data` is a plain value or a node's data."""
    if how in ('accept', 'returns'):
        return False
    if how in ('refuse', 'subclass', 'silent'):
        return True
    if how == 'empty':
        return data is None or data is False or not isinstance(data, bool) and isinstance(data, (int, float)) and data == 0 or hasattr(data, '__len__') and len(data) == 0
    if how == 'long':
        return hasattr(data, '__len__') and len(data) > 1
    raise AssertionError(how)


def register(name, types, how, calls):
    from jschon.vocabulary.format import format_validator

    def validator(value):
        calls.append((name, value))
        if refuses(how, value):
            if how == 'subclass':
                raise json.JSONDecodeError('no', 'text', 0)
            if how == 'silent':
                raise ValueError
            raise ValueError('not a ' + name)
        return False if how == 'returns' else None

    out = format_validator(name, instance_types=tuple(types))(validator) if types is not None else format_validator(name)(validator)
    expect(out is validator, 'the decorator returns another function')


def is_pointer(text):
    try:
        refpointer.parse(text)
    except refpointer.Malformed:
        return False
    return True


def plain(v):
    from jschon import JSON
    if isinstance(v, JSON):
        return v.value
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


# ------------------------------------------------------------- histories

def judge(made, instance, calls, note):
    """One schema on one instance, against the formats enabled when it was created."""
    from jschon import JSON
    d, doc, schema, formats = made['dialect'], made['doc'], made['schema'], made['formats']
    reg = refschema.Registry()
    root = reg.add('doc', doc, 'https://ref.example/root', d)
    covered = {name: (lambda v, f=f: not (refjson.typeof(v) in f['types'] and f['refuses'](v))) for name, f in formats.items()}
    seen = Counter()
    try:
        out = refschema.Evaluator(reg, formats=covered, limit=MAX_STEPS).run(root, instance)
    except (RuntimeError, RecursionError):
        note.label('too large')
        return
    del calls[:]
    what = f'{doc} with {sorted(formats)} enabled on {instance!r}'
    result = schema.evaluate(JSON(instance))
    expect(result.valid is out.valid, '{}: {}, not {}', what, result.valid, out.valid)
    for name, value in calls:
        seen[name] += 1
        expect(name in formats, '{}: the validator of {} is called', what, name)
        expect(refjson.typeof(plain(value)) in formats[name]['types'], '{}: the validator of {} is called for {!r}', what, name, value)
    if out.valid:
        want = Counter((i, kp, annotation(k, x)) for i, kp, k, x in out.notes if k not in UNSPECIFIED[d] and x is not None)
        got = Counter(o for o in map(observed, result.output('basic')['annotations']) if o[1][-1] not in UNSPECIFIED[d])
        agree(what, got, want)
    note.label('valid' if out.valid else 'invalid')
    without = refschema.Evaluator(reg, limit=MAX_STEPS).run(root, instance).valid
    if without is not out.valid:
        note.label('a format decides')
        note.nontrivial()


def histories(case, note):
    from jschon import JSON, JSONSchema, URI, create_catalog
    d = case['dialect']
    calls = []
    registered = {}
    for name, f in zip(CUSTOM, case['validators']):
        register(name, f['types'], f['how'], calls)
        registered[name] = {'types': f['types'] if f['types'] is not None else ['string'], 'refuses': lambda v, how=f['how']: refuses(how, v)}
    registered['json-pointer'] = {'types': ['string'], 'refuses': lambda v: not is_pointer(v)}
    cats = [create_catalog(d, name=f'pbt-formats-{i}') for i in range(case['catalogs'])]
    enabled = [set() for _ in cats]
    schemas = []
    meta = URI(refschema.META[d])
    for n, op in enumerate(case['ops']):
        i = op['catalog'] % len(cats)
        if op['op'] == 'enable':
            cats[i].enable_formats(*op['names'])
            enabled[i] |= set(op['names'])
            note.label('enable')
        elif op['op'] == 'create':
            schema = JSONSchema(op['doc'], catalog=cats[i].name if op['by name'] else cats[i], metaschema_uri=meta, uri=URI(f'https://made.example/{n}'))
            schemas.append({'dialect': d, 'doc': op['doc'], 'schema': schema, 'formats': {k: registered[k] for k in enabled[i]}, 'catalog': i})
        elif schemas:
            s = schemas[op['schema'] % len(schemas)]
            judge(s, op['instance'], calls, note)
            if s['formats'].keys() != enabled[s['catalog']]:
                note.label('enabled since')
        for c, names in zip(cats, enabled):
            for name in CUSTOM + ['json-pointer', 'other']:
                expect(c.is_format_enabled(name) is (name in names), '{} is enabled: {}, {}', name, names, c)
    for s in schemas:
        for v in case['instances']:
            judge(s, v, calls, note)


@st.composite
def history(draw):
    d = draw(st.sampled_from(DIALECTS))
    how = st.sampled_from(['accept', 'returns', 'refuse', 'refuse', 'subclass', 'silent', 'empty', 'long', 'long'])
    types = st.one_of(st.none(), st.lists(st.sampled_from(TYPES), max_size=5, unique=True), st.just(TYPES))
    weights = {'format': 5, 'inplace': 2, 'object': 2, 'array': 2, 'unevaluated': 1, 'ref': 1, 'assert': 1}
    ops = [{'op': 'enable', 'catalog': i, 'names': draw(st.lists(st.sampled_from(gs.FORMATS), min_size=1, max_size=2))} for i in range(draw(st.integers(0, 2)))]
    for _ in range(draw(st.integers(3, 9))):
        op = {'op': draw(st.sampled_from(['enable', 'enable', 'create', 'create', 'create', 'evaluate', 'evaluate'])), 'catalog': draw(st.integers(0, 2))}
        if op['op'] == 'enable':
            op['names'] = draw(st.lists(st.sampled_from(gs.FORMATS), max_size=3))
        elif op['op'] == 'create':
            if draw(st.integers(0, 2)):
                op['doc'] = draw(gs.document(gs.Ctx(d, weights, refs=draw(st.sampled_from([0, 1])), depth=2, booleans=1), must='format'))
            else:
                op['doc'] = {'format': draw(st.sampled_from(gs.FORMATS + ['unheard-of', '', 'json-pointer']))}
            op['by name'] = draw(st.booleans())
        else:
            op['schema'] = draw(st.integers(0, 8))
            op['instance'] = draw(gs.instances())
        ops.append(op)
    return {'dialect': d, 'validators': [{'types': draw(types), 'how': draw(how)} for _ in CUSTOM], 'catalogs': draw(st.integers(1, 3)), 'ops': ops,
            'instances': draw(st.lists(gs.instances(), max_size=3)) + ['/a~1', 'a', {'a': '~2', 'b': []}, ['', '//', None]]}


# ------------------------------------------------------------- json-pointer

_pair = {}


def pointers(case, note):
    """The format that the library itself defines."""
    from jschon import JSON, JSONSchema, URI, create_catalog
    d, text = case['dialect'], case['text']
    want = is_pointer(text)
    note.label('pointer' if want else 'not a pointer')
    note.nontrivial(len(text) > 1)
    if d not in _pair:
        on, off = create_catalog(d, name='pbt-pointers-on'), create_catalog(d, name='pbt-pointers-off')
        on.enable_formats('json-pointer')
        meta = URI(refschema.META[d])
        doc = {'type': ['string', 'array', 'object'], 'format': 'json-pointer', 'items': {'format': 'json-pointer'}, 'propertyNames': {'format': 'json-pointer'}, 'additionalProperties': {'not': {'format': 'json-pointer'}}}
        _pair[d] = JSONSchema(doc, catalog=on, metaschema_uri=meta), JSONSchema(doc, catalog=off, metaschema_uri=meta)
    on, off = _pair[d]
    for v, verdict in ((text, want), ([text], want), (['/a', text, ''], want), ({text: 1}, False), ({'/a': text}, not want), ({text: text}, False)):
        result = on.evaluate(JSON(v))
        expect(result.valid is verdict, 'json-pointer, enabled, on {!r}: {}, not {}', v, result.valid, verdict)
        if isinstance(v, (str, list)):
            expect(off.evaluate(JSON(v)).valid, 'json-pointer, not enabled, on {!r}', v)
            if verdict:
                n = 1 + (len(v) if isinstance(v, list) else 0)
                for schema in (on, off):
                    expect(list(schema.evaluate(JSON(v)).collect_annotations(key='format')) == ['json-pointer'] * n, 'annotations on {!r}', v)


piece = st.one_of(st.sampled_from(['/', '/', '~0', '~1', '~', '~2', '~~', 'a', '0', '-', ' ', '"', '\\', '\n', '\r', '\u2028', '\x00', '#', '%25', 'é', '\U0001d4b3', '//']), st.text(max_size=3))
texts = st.one_of(st.lists(piece, max_size=7).map(''.join), st.lists(piece, max_size=6).map(lambda p: '/' + ''.join(p)), st.lists(piece, max_size=3).map(lambda p: '/' + ''.join(p) + '\n'))


# ------------------------------------------------------------- the order of enabling and registering

_late = itertools.count()


def late(case, note):
    """Formats of new names, registered before or after they are enabled, and again."""
    from jschon import JSON, JSONSchema, URI, create_catalog
    d = case['dialect']
    cats = [create_catalog(d, name=f'pbt-late-{i}') for i in (0, 1)]
    number = next(_late)
    calls = []
    current = {}        # name -> what its validator refuses
    enabled = set()
    note.nontrivial(len(case['steps']) > 2)
    for step, which in case['steps']:
        name = f'pbt-{number}-{which}'
        if step == 'enable':
            cats[0].enable_formats(name)
            enabled.add(name)
            if name not in current:
                note.label('enabled before registered')
        elif step == 'other':
            cats[1].enable_formats(name)
        else:
            if name in current:
                note.label('registered again')
            register(name, TYPES, step, calls)
            current[name] = step
    for which in range(3):
        name = f'pbt-{number}-{which}'
        if name not in current and name in enabled:
            continue
        asserts = name in enabled and current[name] == 'refuse'
        doc = {'allOf': [{'format': name}]} if case['nested'] else {'format': name}
        schema = JSONSchema(doc, catalog=cats[0], metaschema_uri=URI(refschema.META[d]))
        for v in case['instances']:
            result = schema.evaluate(JSON(v))
            expect(result.valid is not asserts, '{}: {} of {!r} after {}: {}', d, doc, v, case['steps'], result.valid)
            if not asserts:
                expect(list(result.collect_annotations(key='format')) == [name], '{}: {} of {!r} after {}: annotations', d, doc, v, case['steps'])


CHECKS = [
    Check('histories', history, histories, 1200,
          rule='histories of enabling formats, creating schemas and evaluating over up to three catalogs, with validators of every kind; non-trivial when an enabled format decides a verdict'),
    Check('late', lambda: st.fixed_dictionaries({
        'dialect': st.sampled_from(DIALECTS), 'nested': st.booleans(), 'instances': st.lists(gs.small_instance, min_size=1, max_size=3),
        'steps': st.lists(st.tuples(st.sampled_from(['enable', 'enable', 'other', 'refuse', 'refuse', 'accept']), st.integers(0, 2)).map(list), min_size=1, max_size=7)}), late, 300,
        rule='formats of new names enabled before, after or without being registered, and registered again; non-trivial with three steps or more'),
    Check('json-pointer', lambda: st.fixed_dictionaries({'dialect': st.sampled_from(DIALECTS), 'text': texts}), pointers, 4000,
          rule='strings in and near the RFC 6901 grammar; non-trivial with more than one character'),
]
ASSUMPTIONS = ['validators are registered before the schemas that use them are created']
