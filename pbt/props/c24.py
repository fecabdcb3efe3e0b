"""C24: the same schema and instance written differently."""
import collections
import collections.abc
import json
import random
import types

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refpointer, refschema
from pbt.worker import Worker
from .c27 import ROOT, flatten, identified
from .common import Check, expect
from .schemas import DIALECTS, annotation, catalog, feasible, tokens

ALL = {'assert': 4, 'meta': 1, 'unknown': 1, 'inplace': 3, 'object': 3, 'array': 3, 'ref': 2, 'unevaluated': 2, 'format': 1, 'content': 1}
MUST = ['inplace', 'object', 'array', 'unevaluated', 'ref']


def cases(extra):
    @st.composite
    def make(draw):
        d = draw(st.sampled_from(DIALECTS))
        must = draw(st.sampled_from(MUST))
        doc = draw(gs.document(gs.Ctx(d, ALL, refs=2, keys=gs.key if draw(st.booleans()) else gs.simple_key), must=must))
        doc = draw(identified(doc, d, 2))
        kinds = {'object': 'object', 'array': 'array'}.get(must) or draw(st.sampled_from([None, 'object', 'array']))
        case = {'dialect': d, 'schema': doc, 'instances': draw(st.lists(gs.instances(kinds), min_size=2, max_size=4))}
        case.update(draw(extra))
        return case
    return make


# ------------------------------------------------------------- summaries

def summary(result):
    """Verdict, annotations, and where the evaluation failed."""
    notes, failing = set(), set()
    for u in flatten(result.output('verbose')):
        k = tokens(u['keywordLocation'])
        where = tokens(u['instanceLocation']), k
        if not u['valid']:
            failing.add(where)
        elif 'annotation' in u:
            notes.add(where + (annotation(k[-1], u['annotation']),))
    collected = sorted(json.dumps(x, sort_keys=True) for x in result.collect_annotations() if not isinstance(x, (list, tuple)))
    return result.valid, notes, failing, collected


def listed(s):
    """A summary as JSON."""
    valid, notes, failing, collected = s
    return [valid, sorted(map(repr, notes)), sorted(map(repr, failing)), collected]


def agree(what, got, want):
    for name, g, w in zip(('verdict', 'annotations', 'failing locations', 'collected annotations'), got, want):
        expect(g == w, '{}: {}: {} became {}', what, name, w if name == 'verdict' else [x for x in w if x not in g][:4],
               g if name == 'verdict' else [x for x in g if x not in w][:4])


def create(doc, d, cid, form='plain', uri=ROOT):
    from jschon import JSONSchema, URI
    kw = dict(catalog=catalog(), cacheid=cid, uri=URI(uri), metaschema_uri=URI(refschema.META[d]))
    if form == 'text':
        return JSONSchema.loads(json.dumps(doc), **kw)
    return JSONSchema(dress(doc, form), **kw)


def instance(v, form='plain'):
    from jschon import JSON
    if form == 'text':
        return JSON.loads(json.dumps(v))
    return JSON(dress(v, form))


def summaries(case):
    with catalog().cache() as cid:
        schema = create(case['schema'], case['dialect'], cid)
        return [summary(schema.evaluate(instance(v))) for v in case['instances']]


def answers(case):
    return [listed(s) for s in summaries(case)]


# ------------------------------------------------------------- writing

class Table(collections.abc.Mapping):
    """A mapping that is no dict."""

    def __init__(self, pairs):
        self._keys, self._values = [k for k, _ in pairs], [v for _, v in pairs]

    def __getitem__(self, key):
        try:
            return self._values[self._keys.index(key)]
        except ValueError:
            raise KeyError(key)

    def __iter__(self):
        return iter(self._keys)

    def __len__(self):
        return len(self._keys)


class Row(collections.abc.Sequence):
    def __init__(self, items):
        self._items = items

    def __getitem__(self, i):
        return self._items[i]

    def __len__(self):
        return len(self._items)


FORMS = {'plain': (dict, list), 'ordered': (collections.OrderedDict, tuple), 'table': (Table, tuple), 'proxy': (lambda p: types.MappingProxyType(dict(p)), list), 'row': (dict, Row),
         'default': (lambda p: collections.defaultdict(dict, p), list), 'user': (lambda p: collections.UserDict(p), lambda x: collections.UserList(x))}


def dress(v, form):
    m, s = FORMS[form]
    if isinstance(v, dict):
        return m([(k, dress(x, form)) for k, x in v.items()])
    if isinstance(v, list):
        return s([dress(x, form) for x in v])
    return v


def shuffled(v, rnd):
    if isinstance(v, dict):
        ks = list(v)
        rnd.shuffle(ks)
        return {k: shuffled(v[k], rnd) for k in ks}
    if isinstance(v, list):
        return [shuffled(x, rnd) for x in v]
    return v


def written(case, note):
    if not feasible(case['schema'], case['dialect'], case['instances'], ROOT):
        note.label('too large')
        return
    base = summaries(case)
    doc, d = case['schema'], case['dialect']
    for seed in case['seeds']:
        rnd = random.Random(seed)
        other = shuffled(doc, rnd)
        # the dialect may be said in the document, in any place
        if seed % 3 == 0:
            ks = list(other) + ['$schema']
            rnd.shuffle(ks)
            other = {k: other.get(k, refschema.META[d]) for k in ks}
        form, inform = case['form'], case['instance form']
        changed = json.dumps(other) != json.dumps(doc)
        note.nontrivial(changed and any(s[1] or s[2] for s in base))
        note.label('schema:' + form, 'instance:' + inform)
        with catalog().cache() as cid:
            schema = create(other, d, cid, form)
            for v, want in zip(case['instances'], base):
                agree(f'{d}: {doc} as {other} ({form}, {inform}) on {v!r}', summary(schema.evaluate(instance(shuffled(v, rnd), inform))), want)


_workers = []


def hashed(case, note):
    """The same case in processes that hash strings differently."""
    if not feasible(case['schema'], case['dialect'], case['instances'], ROOT):
        note.label('too large')
        return
    if not _workers:
        _workers.extend(Worker(s) for s in (0, 77, 4242))
    base = answers(case)
    note.nontrivial(any(s[1] or s[2] for s in base))
    for w in _workers:
        a = w.ask({k: case[k] for k in ('dialect', 'schema', 'instances')})
        expect('ok' in a, 'in another process: {}', a)
        for v, got, want in zip(case['instances'], a['ok'], base):
            agree(f'{case["dialect"]}: {case["schema"]} on {v!r} in another process', got, want)


# ------------------------------------------------------------- neutral rewrites

FREE = [('$comment', 'c'), ('title', 't'), ('minLength', 0), ('minItems', 0), ('minProperties', 0), ('required', []), ('dependentRequired', {}), ('properties', {}),
        ('patternProperties', {}), ('uniqueItems', False), ('if', {}), ('if', False), ('dependentSchemas', {}), ('x-free', {'not': {}}), ('format', 'date'), ('readOnly', True),
        ('description', ''), ('default', {'type': 'nothing'}), ('examples', [1]), ('deprecated', True), ('propertyNames', True), ('allOf', [True]), ('anyOf', [True, False]),
        ('$defs', {'unused': False}), ('type', gs.TYPES[:-1]), ('contentMediaType', 'text/plain'), ('maxProperties', 1000), ('not', False), ('minContains', 3), ('maxContains', 0),
        ('then', False), ('else', False), ('contentSchema', False), ('oneOf', [{}, {'not': {}}]), ('$anchor', 'free'), ('additionalItems', False)]
PURE = [k for k in gs.ASSERTIONS]
REWRITES = ['allOf', 'anyOf', 'oneOf', 'not not', 'extract', 'boolean', 'free', 'free', 'free', 'split', 'twice', 'or false', 'conditional', 'nested ref', 'reorder', 'const', 'anchor']


def has_unevaluated(v):
    return any(isinstance(x, dict) and ('unevaluatedItems' in x or 'unevaluatedProperties' in x) for _, x in refjson.walk(v))


def rewrite(doc, d, site, what, n):
    """The document rewritten at a site without changing its meaning; None if it cannot be."""
    doc = json.loads(json.dumps(doc))
    reg = refschema.Registry()
    reg.add('doc', doc, ROOT, d)
    paths = sorted((p for _, p in reg.nodes), key=lambda p: (len(p), p))
    path = paths[site % len(paths)]
    s = reg.nodes['doc', path].value
    node = reg.nodes['doc', path]

    def put(new):
        if not path:
            return new
        parent = refpointer.evaluate(doc, path[:-1])
        parent[int(path[-1]) if isinstance(parent, list) else path[-1]] = new
        return doc

    # identifiers and definitions stay where they are found
    keep = {}
    rest = s
    if isinstance(s, dict):
        keep = {k: s[k] for k in ('$id', '$schema', '$anchor', '$defs') if k in s}
        rest = {k: v for k, v in s.items() if k not in keep}
    if what in ('allOf', 'anyOf', 'oneOf'):
        return put({**keep, what: [rest]})
    if what == 'not not':
        if has_unevaluated(doc):
            return None
        return put({**keep, 'not': {'not': rest}})
    if what == 'twice':
        return put({**keep, ['allOf', 'anyOf'][n % 2]: [rest, anonymous(rest)]})
    if what == 'or false':
        return put({**keep, ['anyOf', 'oneOf'][n % 2]: [[rest, False], [False, rest], [{'not': True}, rest, False]][n % 3]})
    if what == 'conditional':
        if n % 2:
            return put({**keep, 'if': rest, 'then': True, 'else': False})
        return put({**keep, 'if': True, 'then': rest, 'else': False})
    if what == 'extract':
        if not path:
            return None
        name = 'new%d' % n
        if name in doc.get('$defs', {}):
            return None
        put({**keep, '$ref': f'{ROOT}#/$defs/{name}'})
        doc.setdefault('$defs', {})[name] = rest
        return doc
    if what == 'nested ref':
        # behind a reference to a resource embedded right here
        target = f'https://new.example/{n}'
        if any(v.get('$id') == target for _, v in refjson.walk(doc) if isinstance(v, dict)) or not isinstance(rest, dict) or 'here' in keep.get('$defs', {}):
            return None
        return put({**keep, '$ref': target, '$defs': {**keep.get('$defs', {}), 'here': {'$id': target, **rest}}})
    if what == 'anchor':
        name = 'new%d' % n
        if name in doc.get('$defs', {}) or not path:
            return None
        put({**keep, '$ref': f'{ROOT}#N{n}'})
        doc.setdefault('$defs', {})[name] = {'$anchor': f'N{n}', 'allOf': [rest]}
        return doc
    if what == 'boolean':
        if s is True:
            return put({})
        if s is False:
            return put({'not': [{}, True][n % 2]})
        if s == {} and path:
            return put(True)
        return None
    if what == 'free':
        k, v = FREE[n % len(FREE)]
        if not isinstance(s, dict) or k in s:
            return None
        if (k == 'if' and ('then' in s or 'else' in s) or k in ('then', 'else') and 'if' in s or k in ('minContains', 'maxContains') and 'contains' in s or
                k == 'additionalItems' and (d != '2019-09' or isinstance(s.get('items'), list))):
            return None
        if k == '$anchor' and any(x.get('$anchor') == v for _, x in refjson.walk(doc) if isinstance(x, dict)):
            return None
        if n % 2:
            return put({**s, k: v})
        return put({k: v, **s})
    if what == 'split':
        names = [k for k in s if k in PURE] if isinstance(s, dict) else []
        if not names:
            return None
        k = names[n % len(names)]
        new = {x: v for x, v in s.items() if x != k}
        new['allOf'] = new.get('allOf', []) + [{k: s[k]}]
        return put(new)
    if what == 'reorder':
        names = [k for k in ('allOf', 'anyOf', 'oneOf', 'enum', 'required', 'type') if isinstance(s, dict) and isinstance(s.get(k), list)]
        if not names:
            return None
        k = names[n % len(names)]
        # references by position would follow
        return put({**s, k: s[k][::-1]}) if not any('allOf' in str(r) or 'anyOf' in str(r) or 'oneOf' in str(r) for r in refs(doc)) else None
    if what == 'const':
        if not isinstance(s, dict):
            return None
        if 'const' in s and 'enum' not in s:
            new = {k: v for k, v in s.items() if k != 'const'}
            return put({**new, 'enum': [s['const']]})
        if len(s.get('enum', [])) == 1 and 'const' not in s:
            new = {k: v for k, v in s.items() if k != 'enum'}
            return put({**new, 'const': s['enum'][0]})
        if isinstance(s.get('type'), str) and n % 2:
            return put({**s, 'type': [s['type']]})
        return None
    raise AssertionError(what)


def refs(doc):
    return [v['$ref'] for _, v in refjson.walk(doc) if isinstance(v, dict) and isinstance(v.get('$ref'), str)]


def anonymous(v):
    """A copy without identifiers, which may exist only once."""
    if isinstance(v, dict):
        return {k: anonymous(x) for k, x in v.items() if k not in ('$id', '$anchor')}
    return [anonymous(x) for x in v] if isinstance(v, list) else v


def neutral(case, note):
    d, doc = case['dialect'], case['schema']
    reg = refschema.Registry()
    root = reg.add('doc', doc, ROOT, d)
    new = json.loads(json.dumps(doc))
    done = []
    for site, what, n in case['rewrites']:
        out = rewrite(new, d, site, what, n)
        if out is not None:
            new = out
            done.append(what)
    if not feasible(doc, d, case['instances'], ROOT) or not feasible(new, d, case['instances'], ROOT):
        note.label('too large')
        return
    note.label(*done)
    note.nontrivial(len(done) > 1)
    with catalog().cache() as cid, catalog().cache() as cid2:
        a = create(doc, d, cid)
        b = create(new, d, cid2)
        from jschon import JSONSchema, URI
        outer = JSONSchema({'not': {'$ref': ROOT}}, catalog=catalog(), cacheid=cid, metaschema_uri=URI(refschema.META[d]))
        inline = JSONSchema({'not': {'allOf': [True, {'$ref': ROOT}], 'title': 'x'}}, catalog=catalog(), cacheid=cid2, metaschema_uri=URI(refschema.META[d]))
        for v in case['instances']:
            want = a.evaluate(instance(v)).valid
            got = b.evaluate(instance(v)).valid
            expect(got is want, '{}: {} on {!r} is {}; rewritten by {} to {} it is {}', d, doc, v, want, done, new, got)
            expect(outer.evaluate(instance(v)).valid is (not want), '{}: {} and its negation on {!r}', d, doc, v)
            expect(inline.evaluate(instance(v)).valid is (not want), '{}: {} and its negation on {!r}', d, new, v)
            note.label('valid' if want else 'invalid')


writing = st.fixed_dictionaries({'seeds': st.lists(st.integers(0, 9999), min_size=1, max_size=3),
                                 'form': st.sampled_from(sorted(FORMS) + ['text', 'plain']), 'instance form': st.sampled_from(sorted(FORMS) + ['text', 'plain'])})
rewriting = st.fixed_dictionaries({'rewrites': st.lists(st.tuples(st.integers(0, 30), st.sampled_from(REWRITES), st.integers(0, 99)).map(list), min_size=1, max_size=6)})
CHECKS = [
    Check('writing', cases(writing), written, 2400,
          rule='members of schema and instance reordered at every depth, given as text, plain data and other mapping and sequence types; non-trivial when the order changed and there are annotations or failures'),
    Check('rewriting', cases(rewriting), neutral, 2800,
          rule='up to six neutral rewrites at any schema of the document, and the negation of both; non-trivial with at least two rewrites'),
    Check('hashing', cases(st.just({})), hashed, 800,
          rule='the same case in three more processes with other hash seeds; non-trivial when there are annotations or failures'),
]
