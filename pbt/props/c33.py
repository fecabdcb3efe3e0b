"""C33: custom keyword classes: order, types, subschemas, siblings; against a small model."""
import itertools
from collections import Counter

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refschema
from .common import Check, expect
from .schemas import DIALECTS, tagged, tokens

HERE = 'https://extension.example/'
_cat = {}
_counter = itertools.count()
TYPES = ['null', 'boolean', 'number', 'string', 'array', 'object']
FORMS = ['plain', 'one', 'array', 'object', 'either']


def catalog():
    if not _cat:
        from jschon import URI, create_catalog
        from jschon.catalog import Source
        docs = {}

        class Served(Source):
            def __call__(self, relative_path):
                return docs[relative_path]

        cat = create_catalog(*DIALECTS, name='pbt-extension')
        cat.add_uri_source(URI(HERE), Served())
        _cat.update(catalog=cat, docs=docs, vocabularies={
            d: list(cat.get_metaschema(URI(refschema.META[d])).value['$vocabulary']) for d in DIALECTS})
    return _cat['catalog'], _cat['docs'], _cat['vocabularies']


def weight(v):
    """Something about a value that a keyword can test."""
    t = refjson.typeof(v)
    if t in ('string', 'array', 'object'):
        return len(v)
    return {'null': 3, 'boolean': 4}.get(t) or int(v) if not isinstance(v, bool) else 5


# ------------------------------------------------------------- keyword classes

def surroundings(schema):
    return [schema.document_rootschema, schema.resource_rootschema, schema.parentschema, schema.metaschema, schema.base_uri, schema.metaschema_uri, schema.path]


def make(spec, log, made):
    from jschon.vocabulary import ArrayOfSubschemas, Keyword, ObjectOfSubschemas, Subschema

    def evaluate(self, instance, result):
        saw = []
        for dep in spec['depends_on']:
            s = result.sibling(instance, dep)
            saw.append([dep, None if s is None else [s.valid, s.annotation if dep.startswith('k') or dep == 'absent' else None]])
        log.append((spec['name'], tokens(str(self.parentschema.path)), tokens(str(instance.path)), tokens(str(result.path)), saw))
        from jschon import JSONSchema
        j = self.json
        ok = True
        if isinstance(j, JSONSchema):
            with result(instance, 'in', j) as sub:
                j.evaluate(instance, sub)
                ok = sub.passed
        elif spec['form'] in ('array', 'either') and j.type == 'array':
            for i, s in enumerate(j):
                with result(instance, str(i)) as sub:
                    s.evaluate(instance, sub)
                    ok = ok and sub.passed
        elif spec['form'] == 'object' and j.type == 'object':
            if instance.type == 'object':
                for name, s in j.items():
                    if name in instance:
                        with result(instance[name], name) as sub:
                            s.evaluate(instance[name], sub)
                            ok = ok and sub.passed
        else:
            ok = j.value != weight(instance.value)
        mode = spec['mode']
        if mode == 'reverse':
            if ok:
                result.fail('yes')
            else:
                result.fail('no')
                result.pass_()
        elif ok:
            result.annotate([spec['name'], len(saw)])
        else:
            result.fail('no')
        if mode == 'discard':
            result.discard()
        elif mode == 'noassert':
            result.noassert()

    mixins = {'plain': (), 'one': (Subschema,), 'array': (ArrayOfSubschemas,), 'object': (ObjectOfSubschemas,), 'either': (Subschema, ArrayOfSubschemas)}[spec['form']]
    def __init__(self, parentschema, value):
        # what a keyword can see of its schema while the document is being constructed
        self.saw = surroundings(parentschema)
        Keyword.__init__(self, parentschema, value)
        made.append(self)

    members = {'key': spec['name'], '__init__': __init__, 'evaluate': evaluate, 'depends_on': tuple(spec['depends_on'])}
    if spec['types'] is not None:
        members['instance_types'] = tuple(spec['types'])
    if spec['static']:
        members['static'] = True
    if spec.get('derived'):
        # the class that is registered inherits all it has
        base = type('Base', (Keyword,) + mixins, {k: v for k, v in members.items() if k not in ('key', 'depends_on')})
        return type('Custom', (base,), {k: members[k] for k in ('key', 'depends_on')})
    return type('Custom', (Keyword,) + mixins, members)


# ------------------------------------------------------------- the model

class Model:
    def __init__(self, specs):
        self.specs = {s['name']: s for s in specs}
        self.calls = Counter()
        self.siblings = {}
        self.notes = Counter()

    def forms(self, name, value):
        """The subschemas of a custom keyword with this value."""
        f = self.specs[name]['form']
        if f in ('one', 'either') and isinstance(value, (bool, dict)):
            return {(): value}
        if f in ('array', 'either') and isinstance(value, list):
            return {(str(i),): x for i, x in enumerate(value)}
        if f == 'object' and isinstance(value, dict):
            return {(k,): x for k, x in value.items()}
        return None

    def applies(self, name, v):
        s = self.specs[name]
        return not s['static'] and (s['types'] is None or refjson.typeof(v) in s['types'])

    def run(self, schema, v, iloc, kpath):
        """The verdict and annotations of a schema."""
        if isinstance(schema, bool):
            return schema, []
        valid, notes = True, []
        outcome = {}

        def sub(s, x, il, kp):
            ok, ns = self.run(s, x, il, kp)
            return ok, ns if ok else []

        for k, kv in schema.items():
            here = []
            if k == '$id':
                continue
            if k == 'absent':
                # not of any vocabulary: an annotation and nothing else
                outcome[k] = True
                continue
            if k == 'allOf':
                rs = [sub(s, v, iloc, kpath + (k, str(i))) for i, s in enumerate(kv)]
            elif k == 'properties':
                rs = [sub(kv[n], x, iloc + (n,), kpath + (k, n)) for n, x in v.items() if n in kv] if isinstance(v, dict) else []
            elif k == 'items':
                rs = [sub(kv, x, iloc + (str(i),), kpath + (k,)) for i, x in enumerate(v)] if isinstance(v, list) else []
            elif k == 'not':
                ok, _ = sub(kv, v, iloc, kpath + (k,))
                rs = [(not ok, [])]
            elif k == 'type':
                rs = [(refschema.is_type(v, kv), [])]
            elif k in self.specs:
                if not self.applies(k, v):
                    continue
                self.calls[k, kpath, iloc] += 1
                parts = self.forms(k, kv)
                if parts is None:
                    rs = [(not refjson.eq(kv, weight(v)), [])]
                elif () in parts:
                    rs = [sub(parts[()], v, iloc, kpath + (k, 'in'))]
                elif isinstance(kv, list):
                    rs = [sub(s, v, iloc, kpath + (k, str(i))) for i, s in enumerate(kv)]
                else:
                    rs = [sub(s, v[n], iloc + (n,), kpath + (k, n)) for n, s in kv.items() if n in v] if isinstance(v, dict) else []
                mode = self.specs[k]['mode']
                if mode == 'discard':
                    continue
                if mode == 'reverse':
                    # the verdict is the opposite, and what passed below keeps its annotations
                    ok = not all(r[0] for r in rs)
                    outcome[k] = ok
                    valid = valid and ok
                    if ok:
                        for r in rs:
                            notes += r[1]
                    continue
                if mode == 'noassert':
                    outcome[k] = all(r[0] for r in rs)
                    if outcome[k]:
                        for r in rs:
                            notes += r[1]
                        notes += [(iloc, kpath + (k,), tagged([k, len(self.specs[k]['depends_on'])]))]
                    continue
                if all(r[0] for r in rs):
                    here = [(iloc, kpath + (k,), tagged([k, len(self.specs[k]['depends_on'])]))]
            else:
                raise AssertionError(k)
            ok = all(r[0] for r in rs)
            outcome[k] = ok
            valid = valid and ok
            if ok:
                for r in rs:
                    notes += r[1]
                notes += here
        for k in schema:
            if k in self.specs and self.applies(k, v):
                for dep in self.specs[k]['depends_on']:
                    there = None
                    if dep in outcome:
                        t = refjson.typeof(v)
                        if dep in self.specs or {'properties': 'object', 'items': 'array'}.get(dep, t) == t:
                            there = [outcome[dep], schema[dep] if dep == 'absent' else [dep, len(self.specs[dep]['depends_on'])] if dep in self.specs and outcome[dep] and self.specs[dep]['mode'] != 'reverse' else None]
                    self.siblings[k, kpath, iloc, dep] = there
        return valid, notes


# ------------------------------------------------------------- the check

@st.composite
def extensions(draw):
    d = draw(st.sampled_from(DIALECTS))
    n = draw(st.integers(2, 6))
    names = draw(st.permutations(['k%d' % i for i in range(n)]))
    specs = []
    for i, name in enumerate(names):
        pool = list(names[:i]) * 2 + ['properties', 'allOf', 'type', 'absent', 'items']
        specs.append({'name': name, 'depends_on': draw(st.lists(st.sampled_from(pool), min_size=min(i, 1), max_size=draw(st.sampled_from([3, 3, 3, 6])), unique=True)),
                      'types': draw(st.one_of(st.none(), st.none(), st.none(), st.lists(st.sampled_from(TYPES), max_size=5, unique=True))),
                      'static': draw(st.integers(0, 11)) == 0, 'mode': draw(st.sampled_from(['plain'] * 6 + ['discard', 'noassert', 'reverse'])), 'form': draw(st.sampled_from(FORMS)),
                      'derived': draw(st.booleans())})
    form = {s['name']: s['form'] for s in specs}
    ids = []

    def schema(depth):
        if depth == 0 or draw(st.integers(0, 6)) == 0:
            return draw(st.sampled_from([True, True, True, {}, {}, {'type': 'integer'}, False]))
        out = {}
        ks = draw(st.lists(st.sampled_from(list(names) * 2 + ['allOf', 'properties', 'items', 'type', 'not']), min_size=1, max_size=draw(st.sampled_from([4, 4, 4, 8])), unique=True))
        if draw(st.booleans()):
            # with what they depend on, before or after
            ks = draw(st.permutations(ks + [x for s in specs if s['name'] in ks for x in s['depends_on'] if x not in ks]))
        for k in dict.fromkeys(ks):
            if k == 'allOf':
                out[k] = [schema(depth - 1) for _ in range(draw(st.integers(1, 2)))]
            elif k == 'properties':
                out[k] = {x: schema(depth - 1) for x in draw(st.lists(st.sampled_from('abc'), max_size=2, unique=True))}
            elif k == 'absent':
                out[k] = draw(st.sampled_from([1, 'text', [{}], {'type': 'string'}]))
            elif k in ('items', 'not'):
                out[k] = schema(depth - 1)
            elif k == 'type':
                out[k] = draw(st.sampled_from(TYPES + ['integer']))
            else:
                f = form[k]
                if f == 'either':
                    f = draw(st.sampled_from(['one', 'array']))
                if f == 'plain' or draw(st.integers(0, 9)) == 0:
                    out[k] = draw(st.sampled_from([0, 1, 2, 7, 9, 9]))
                elif f == 'one':
                    out[k] = schema(depth - 1)
                elif f == 'array':
                    out[k] = [schema(depth - 1) for _ in range(draw(st.integers(0, 2)))]
                else:
                    out[k] = {x: schema(depth - 1) for x in draw(st.lists(st.sampled_from('abc'), max_size=2, unique=True))}
        if draw(st.integers(0, 4)) == 0:
            ids.append(1)
            out['$id'] = f'https://inside.example/{len(ids)}'
        return out

    body = schema(3)
    if not isinstance(body, dict):
        body = {'allOf': [body]}
    instances = draw(st.lists(gs.instances(draw(st.sampled_from([None, 'object', 'array']))), min_size=1, max_size=4))
    return {'dialect': d, 'keywords': draw(st.permutations(specs)), 'schema': body, 'instances': instances, 'split': draw(st.booleans())}


def numbers_ok(v):
    return all(not isinstance(x, float) or abs(x) < 1e15 for _, x in refjson.walk(v))


def extended(case, note):
    from jschon import JSON, JSONSchema, URI
    cat, docs, vocabularies = catalog()
    d, specs = case['dialect'], case['keywords']
    n = next(_counter)
    log = []
    made = []
    classes = [make(s, log, made) for s in specs]
    uris = [f'{HERE}v{n}']
    if case['split'] and len(classes) > 1:
        uris.append(f'{HERE}w{n}')
        cat.create_vocabulary(URI(uris[1]), *classes[1:])
        classes = classes[:1]
    cat.create_vocabulary(URI(uris[0]), *classes)
    meta = f'{HERE}m{n}'
    docs[f'm{n}'] = {'$schema': refschema.META[d], '$id': meta, '$vocabulary': dict.fromkeys(vocabularies[d] + uris, True), 'type': ['object', 'boolean']}
    doc = case['schema']
    with cat.cache() as cid:
        schema = JSONSchema(doc, catalog=cat, cacheid=cid, metaschema_uri=URI(meta))
        expect(refjson.same(schema.value, doc), '{} became {}', doc, schema.value)
        expect(not log, 'keywords were evaluated during construction: {}', log)
        shapes(schema, doc, {s['name']: s for s in specs}, (), d)
        for kw in made:
            now = surroundings(kw.parentschema)
            top = kw.parentschema
            while top.parent is not None:
                top = top.parent
            expect(now[0] is schema is top, '{}: root of {} is {}', doc, kw, now[0])
            top = kw.parentschema
            while top.parent is not None and not (isinstance(top, JSONSchema) and '$id' in top):
                top = top.parent
            expect(now[1] is top, '{}: resource root of {} is {}', doc, kw, now[1])
            for x, y in zip(kw.saw, now):
                expect(x is y if isinstance(y, JSON) else x == y, '{}: {} saw {!r} of its schema, not {!r}', doc, kw, x, y)
        for v in case['instances']:
            if not numbers_ok(v):
                continue
            what = f'{specs}: {doc} on {v!r}'
            m = Model(specs)
            want, notes = m.run(doc, v, (), ())
            del log[:]
            result = schema.evaluate(JSON(v))
            expect(result.valid is want, '{}: {}, not {}', what, result.valid, want)
            calls = Counter((name, rpath[:-1], iloc) for name, _, iloc, rpath, _ in log)
            for c in calls:
                expect(m.calls[c] >= calls[c], '{}: {} evaluated {} times, not {}', what, c, calls[c], m.calls[c])
            if want and 'not' not in str(doc) and all(s['mode'] == 'plain' for s in specs):
                expect(calls == m.calls, '{}: not evaluated: {}', what, m.calls - calls)
            order = {}
            for i, (name, spath, iloc, rpath, saw) in enumerate(log):
                order[name, rpath[:-1], iloc] = i
                for dep, got in saw:
                    expected = m.siblings[name, rpath[:-1], iloc, dep]
                    expect(refjson.same(got, expected), '{}: {} at {} saw {} of {}, not {}', what, name, iloc, got, dep, expected)
            by = {s['name']: s for s in specs}
            edges = 0
            for (name, kp, il), i in order.items():
                for dep in by[name]['depends_on']:
                    j = order.get((dep, kp, il))
                    if j is not None:
                        edges += 1
                        expect(j < i, '{}: {} was evaluated before {}, on which it depends', what, name, dep)
            note.nontrivial(edges > 0)
            note.label('valid' if want else 'invalid', 'dependencies:%d' % min(edges, 5))
            if want:
                got = Counter((tokens(u['instanceLocation']), tokens(u['keywordLocation']), tagged(u['annotation'])) for u in result.output('basic')['annotations']
                              if tokens(u['keywordLocation'])[-1] in by and isinstance(u['annotation'], list) and u['annotation'][:1] == [tokens(u['keywordLocation'])[-1]])
                expect(got == Counter(notes), '{}: annotations too many {}, missing {}', what, got - Counter(notes), Counter(notes) - got)


def shapes(node, doc, specs, path, d):
    """Custom keywords have schemas for subschemas exactly where their form says."""
    from jschon import JSONSchema
    expect(isinstance(node, JSONSchema), '{} at {} is no schema', doc, path)
    if not isinstance(doc, dict):
        return
    m = Model(specs.values())
    for k, kv in doc.items():
        if k not in specs:
            for rel, sub in refschema.children({k: kv}, d):
                at = node
                for key in rel:
                    at = at[int(key) if at.type == 'array' else key]
                shapes(at, sub, specs, path + rel, d)
            continue
        parts = m.forms(k, kv) or {}
        at = node[k]
        expect(isinstance(at, JSONSchema) is (() in parts), '{} at {}: {}', doc, path, type(at))
        for rel, sub in parts.items():
            child = at
            for key in rel:
                child = at[int(key) if at.type == 'array' else key]
            expect(child.parentschema is node, '{} at {}: parent schema', k, path)
            expect(tokens(str(child.path)) == path + (k,) + rel, '{} at {}: path {}', k, path, child.path)
            shapes(child, sub, specs, path + (k,) + rel, d)


# ------------------------------------------------------------- keywords that hold schemas for others to refer to

INSIDE = 'https://stored.example/'


@st.composite
def stores(draw):
    n = draw(st.integers(1, 4))
    form = draw(st.sampled_from(['one', 'array', 'object', 'either', 'either']))
    if form == 'one':
        n = 1
    bodies = []
    for i in range(n):
        spell = draw(st.sampled_from(['pointer', 'pointer', 'anchor', 'id']))
        how = draw(st.sampled_from(['leaf', 'ref', 'ref', 'member', 'item', 'below']))
        to = draw(st.integers(0, n - 1)) if how in ('member', 'item') else draw(st.integers(i + 1, n - 1)) if i + 1 < n else None
        bodies.append({'how': how if to is not None else 'leaf', 'to': to, 'name': draw(st.sampled_from([None, 'anchor', 'id'])), 'spell': spell,
                       'leaf': draw(st.sampled_from([{'type': 'string'}, {'type': 'integer'}, {'const': 1}, {'minimum': 2}, {'required': ['a']}, {'minItems': 1}, {'type': ['object', 'array', 'string']}]))})
    leaf = st.sampled_from([0, 1, 2, 'a', None, {}, []])
    return {'dialect': draw(st.sampled_from(DIALECTS)), 'form': form, 'static': draw(st.booleans()), 'derived': draw(st.booleans()), 'bodies': bodies, 'start': draw(st.integers(0, n - 1)),
            'at': draw(st.sampled_from([[], [], ['allOf', '0'], ['properties', 'p'], ['$defs', 'z']])), 'first': draw(st.booleans()),
            'instances': draw(st.lists(st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=2), st.dictionaries(st.just('a'), c)), max_leaves=4), min_size=3, max_size=6))}


def stored(case, store):
    """The document with its schemas in the keyword, or under "$defs"."""
    bodies, at = case['bodies'], case['at']
    if store is None:
        place = [['$defs', f's{i}'] for i in range(len(bodies))]
    else:
        place = [[store, *{'one': [], 'array': [f'{i}'], 'object': [f's{i}']}['array' if case['form'] == 'either' else case['form']]] for i in range(len(bodies))]

    def refer(i, spell):
        b = bodies[i]
        if spell == 'anchor' and b['name'] == 'anchor':
            return f'{INSIDE}doc#A{i}'
        if spell == 'id' and b['name'] == 'id':
            return f'{INSIDE}part{i}'
        return f'{INSIDE}doc#/' + '/'.join(at + place[i])

    def body(i):
        b = bodies[i]
        out = {'anchor': {'$anchor': f'A{i}'}, 'id': {'$id': f'{INSIDE}part{i}'}}.get(b['name'], {})
        if b['how'] == 'leaf':
            return {**out, **b['leaf']}
        ref = {'$ref': refer(b['to'], b['spell'])}
        return {**out, **{'ref': {**b['leaf'], **ref}, 'member': {'properties': {'a': ref}}, 'item': {'items': ref}, 'below': {'allOf': [b['leaf'], {'anyOf': [ref]}]}}[b['how']]}
    parts = [body(i) for i in range(len(bodies))]
    if store is None:
        held = {'$defs': {f's{i}': x for i, x in enumerate(parts)}}
    else:
        held = {store: {'one': lambda: parts[0], 'object': lambda: {f's{i}': x for i, x in enumerate(parts)}}.get(case['form'], lambda: parts)()}
    for k in reversed(at):
        held = [held] if k == '0' else {k: held}
    start = {'$ref': refer(case['start'], 'pointer')}
    doc = {'$id': INSIDE + 'doc', **({**start, **held} if case['first'] else {**held, **start})}
    return doc


def keeps(case, note):
    from jschon import JSON, JSONSchema, URI
    cat, docs, vocabularies = catalog()
    d, n = case['dialect'], next(_counter)
    store = make({'name': 'store', 'depends_on': [], 'types': [], 'static': case['static'], 'mode': 'plain', 'form': case['form'], 'derived': case['derived']}, [], [])
    cat.create_vocabulary(URI(f'{HERE}v{n}'), store)
    meta = f'{HERE}m{n}'
    docs[f'm{n}'] = {'$schema': refschema.META[d], '$id': meta, '$vocabulary': dict.fromkeys(vocabularies[d] + [f'{HERE}v{n}'], True), 'type': ['object', 'boolean']}
    doc, plain = stored(case, 'store'), stored(case, None)
    verdicts = set()
    with cat.cache() as cid:
        schema = JSONSchema(doc, catalog=cat, cacheid=cid, metaschema_uri=URI(meta))
        for v in case['instances']:
            want = refschema.evaluate(plain, v, d).valid
            got = schema.evaluate(JSON(v)).valid
            expect(got is want, '{} for {!r} is {}, not {}', doc, v, got, want)
            verdicts.add(got)
    note.nontrivial(len(verdicts) == 2)


CHECKS = [
    Check('stores', stores, keeps, 800,
          rule='a keyword, static or of no type, that holds schemas which refer to one another by pointer, anchor and identifier; non-trivial when both verdicts occur'),
    Check('extensions', extensions, extended, 4000,
          rule='up to six keyword classes with dependencies, types and subschemas of every form, in a vocabulary of a metaschema, anywhere in schemas in any order; non-trivial when a keyword is evaluated with one it depends on'),
]
