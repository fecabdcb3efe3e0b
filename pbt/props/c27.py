"""C27: the output formats against the result tree, the document and the reference evaluator."""
import copy
import json
import urllib.parse
from collections import Counter

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refpointer, refschema, refuri
from .common import Check, expect
from .schemas import DIALECTS, built, tagged, tokens

ROOT = 'https://ref.example/root'
MAX_STEPS = 2500
LEFT = {'additionalItems', 'unevaluatedItems', 'additionalProperties', 'unevaluatedProperties', 'items', 'then', 'else'}
REFS = ('$ref', '$dynamicRef', '$recursiveRef')


# ---------------------------------------------------------------- documents

@st.composite
def identified(draw, doc, dialect, refs):
    """The document with references made absolute, and identifiers and anchors
    on some of its schemas."""
    doc = json.loads(json.dumps(doc))
    reg = refschema.Registry()
    reg.add('doc', doc, ROOT, dialect)
    names = {}
    for i in range(refs):
        d = doc['$defs']['d%d' % i]
        names['#/$defs/d%d' % i] = [ROOT + '#/$defs/d%d' % i]
        if isinstance(d, dict):
            how = draw(st.sampled_from(['', 'id', 'anchor', 'both']))
            if how in ('id', 'both'):
                d['$id'] = draw(st.sampled_from(['res/d%d', 'https://other.example/d%d', '/d%d'])) % i
                names['#/$defs/d%d' % i].append(refuri.resolve(d['$id'], ROOT))
            if how == 'anchor':
                d['$anchor'] = 'A%d' % i
                names['#/$defs/d%d' % i].append(ROOT + '#A%d' % i)
    n = 0
    for (_, path), node in reg.nodes.items():
        v = node.value
        if not isinstance(v, dict):
            continue
        if path and '$id' not in v and '$anchor' not in v and draw(st.integers(0, 7)) == 0:
            v['$id'] = 'https://other.example/sub/%d' % n
            n += 1
        if '$ref' in v:
            ref = v['$ref']
            v['$ref'] = ROOT if ref == '#' else draw(st.sampled_from(names[ref]))
            if ref != '#' and dialect != '2019-09' and draw(st.integers(0, 4)) == 0:
                v['$dynamicRef'] = v.pop('$ref')
    if draw(st.booleans()):
        doc['$id'] = ROOT
    return doc


def cases(weights, must, kinds, refs=2, **kw):
    @st.composite
    def make(draw):
        d = draw(st.sampled_from(DIALECTS))
        doc = draw(gs.document(gs.Ctx(d, weights, refs=refs, **kw), must=must))
        doc = draw(identified(doc, d, refs))
        return {'dialect': d, 'schema': doc, 'instances': draw(st.lists(gs.instances(kinds), min_size=1, max_size=3)),
                'within': draw(st.sampled_from([None, None, ['list', 2], ['k', 1], ['a/b~', 0]])),
                'filter': draw(st.lists(st.sampled_from(['title', 'items', 'properties', 'format', 'foo', 'default', 'prefixItems']), max_size=4)),
                'how': draw(st.sampled_from(['list', 'tuple', 'set', 'dict', 'iterator']))}
    return make


def same_text(draw, d):
    """Schemas of one and the same text that mean different things, each in a resource of its own and referring to the next."""
    n = draw(st.integers(2, 4))
    ref = {draw(st.sampled_from(['$ref', '$ref', '$dynamicRef'] if d != '2019-09' else ['$ref'])): 'n/#/$defs/s'}
    wrap = draw(st.sampled_from(['plain', 'allOf', 'anyOf', 'not', 'if', 'properties', 'items', 'additionalProperties', 'contains']))
    body = {'plain': ref, 'allOf': {'allOf': [ref]}, 'anyOf': {'anyOf': [{'type': 'null'}, ref]}, 'not': {'not': ref}, 'if': {'if': ref, 'then': ref, 'else': {'type': ['object', 'string']}},
            'properties': {'properties': {'a': ref}}, 'items': {'items': ref}, 'additionalProperties': {'additionalProperties': ref}, 'contains': {'contains': ref}}[wrap]
    body = {**body, **draw(st.sampled_from([{}, {'title': 't'}, {'unevaluatedProperties': False}, {'unevaluatedItems': {'type': 'integer'}}]))}
    ends = [{'type': 'integer'}, {'minimum': 2, 'title': 'end'}, {'maxLength': 1}, {'required': ['a']}, {'minItems': 1}, True, False, {}]
    defs = {'s': body}
    for i in range(1, n + 1):
        defs[f'r{i}'] = {'$id': 'n/' * i, '$defs': {'s': refjson.copy(body) if i < n else draw(st.sampled_from(ends))}}
    doc = {'$ref': draw(st.sampled_from(['#/$defs/s'] * 2 + [f'{"n/" * i}#/$defs/s' for i in range(1, n)])), '$defs': defs}
    leaf = draw(st.sampled_from([0, 1, 2, 'a', 'ab', None, {}, [], {'a': 1}, [1, 2]]))
    insts = []
    for _ in range(draw(st.integers(1, 3))):
        v = draw(st.sampled_from([0, 1, 2, 'a', 'ab', None, {}, [], {'a': 1}, [1, 2]]))
        for _ in range(draw(st.sampled_from([n, n - 1, n + 1, 0])) if wrap in ('properties', 'items', 'additionalProperties', 'contains') else 0):
            v = {'a': v} if 'ropert' in wrap else [v] if draw(st.booleans()) else [v, leaf]
        insts.append(v)
    return {k: doc[k] for k in draw(st.permutations(list(doc)))}, insts


@st.composite
def alike(draw):
    d = draw(st.sampled_from(DIALECTS))
    case = draw(cases({'assert': 1}, 'assert', None)())
    doc, insts = same_text(draw, d)
    return {**case, 'dialect': d, 'schema': doc, 'instances': insts}


def nested(v, within):
    """The instance as a node of its own, or inside a larger document."""
    from jschon import JSON
    if within is None:
        return JSON(v), ()
    key, n = within
    if key == 'list':
        return JSON([None] * n + [v, 1])[n], (str(n),)
    return JSON({'x': 1, key: [{}] * n + [v]})[key][n], (key, str(n))


# ---------------------------------------------------------------- the model

class Trace(refschema.Evaluator):
    """The reference evaluator, keeping what each subschema and assertion said and where each path leads."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.at, self.failing, self.holding = {}, set(), set()
        self.target = {}

    def apply(self, node, v, iloc, kpath, scope):
        out = super().apply(node, v, iloc, kpath, scope)
        self.at[iloc, kpath] = out.valid
        self.target[kpath] = node
        if isinstance(node.value, dict):
            for k, kv in node.value.items():
                verdict = refschema.assertion(k, kv, node.value, v)
                if verdict is not None:
                    (self.holding if verdict else self.failing).add((iloc, kpath + (k,)))
        return out


def split(uri):
    base, _, frag = uri.partition('#')
    return refuri.normalize(base), tokens(urllib.parse.unquote(frag, errors='strict'))


# ---------------------------------------------------------------- the checks

UNIT = {'instanceLocation', 'keywordLocation', 'absoluteKeywordLocation'}


def flatten(verbose):
    yield verbose
    for c in verbose.get('annotations', verbose.get('errors', [])):
        yield from flatten(c)


def chain(unit, valid):
    """The units reachable from the root along units of the same verdict."""
    if unit['valid'] is valid:
        yield unit
        for c in unit.get('annotations', unit.get('errors', [])):
            yield from chain(c, valid)


def condense(unit, valid, message, group):
    kids = [condense(c, valid, message, group) for c in unit.get(group, []) if c['valid'] is valid]
    if len(kids) == 1:
        return kids[0]
    out = {k: unit[k] for k in UNIT}
    if kids:
        out[group] = kids
    elif message in unit:
        out[message] = unit[message]
    return out


def units(tree):
    """What verbose output should say, read off the result tree."""
    out = {'valid': tree.valid, 'instanceLocation': str(tree.instance.path), 'keywordLocation': str(tree.path), 'absoluteKeywordLocation': str(tree.absolute_uri)}
    if tree.valid:
        if tree.annotation is not None:
            out['annotation'] = tree.annotation
    elif tree.error is not None:
        out['error'] = tree.error
    kids = [units(c) for c in tree.children.values()]
    if kids:
        out['annotations' if tree.valid else 'errors'] = kids
    return out


def plain(v):
    return type(v) in (dict, list, str, int, float, bool, type(None)) and (
        all(type(k) is str and plain(x) for k, x in v.items()) if isinstance(v, dict) else all(map(plain, v)) if isinstance(v, list) else True)


def count(us):
    return Counter(tagged(u) for u in us)


_own = []


def own_format():
    """A format registered by a program; the decorated function stays callable."""
    if not _own:
        from jschon.output import output_formatter

        @output_formatter('pbt-own')
        def first(result):
            raise AssertionError('replaced')

        @output_formatter('pbt-own')
        def formatter(result, also=None):
            return {'valid': result.valid, 'also': also, 'of': result}
        _own.append(formatter)
    return _own[0]


def formats(case, note):
    from jschon import JSON
    d, doc = case['dialect'], case['schema']
    reg = refschema.Registry()
    root = reg.add('doc', doc, ROOT, d)
    from jschon import URI
    with built(doc, d, uri=URI(ROOT)) as schema:
        for v in case['instances']:
            instance, prefix = nested(v, case['within'])
            trace = Trace(reg, limit=MAX_STEPS)
            try:
                want = trace.run(root, v, prefix)
            except RuntimeError:
                note.label('too large')
                continue
            result = schema.evaluate(instance)
            outs = {f: result.output(f) for f in ('flag', 'basic', 'detailed', 'verbose', 'hierarchical')}
            whole = instance
            while whole.parent is not None:
                whole = whole.parent
            what = f'{d}: {doc} on {v!r}'
            for f, o in outs.items():
                expect(o['valid'] is want.valid, '{}: {} says {}', what, f, o['valid'])
                expect(plain(o), '{}: {} is not plain JSON: {!r}', what, f, o)
                expect(refjson.same(json.loads(json.dumps(o, allow_nan=False)), o), '{}: {} does not survive JSON', what, f)
                expect(refjson.same(result.output(f), o), '{}: {} differs the second time', what, f)
            valid = want.valid
            message, group = ('annotation', 'annotations') if valid else ('error', 'errors')
            note.label('valid' if valid else 'invalid')
            verbose = outs['verbose']

            # flag
            expect(outs['flag'] == {'valid': valid}, '{}: flag {}', what, outs['flag'])
            # a program's own format
            seen = own_format()(result, also=[v])
            expect(result.output('pbt-own', also=[v]) == seen and seen['valid'] is valid and seen['also'] == [v] and seen['of'] is result, '{}: own format', what)
            # verbose: the result tree
            expect(refjson.eq(verbose, units(result)), '{}: verbose {} is not the tree {}', what, verbose, units(result))
            locate(what, verbose, reg, trace, whole.value, prefix)
            # basic: flat
            basic = outs['basic']
            expect(set(basic) == {'valid', group}, '{}: basic has {}', what, set(basic))
            flat = [{k: u[k] for k in UNIT | {message}} for u in chain(verbose, valid) if message in u]
            same(what, 'basic', basic[group], flat)
            note.nontrivial(len(flat) > 1 and any('$' in u['keywordLocation'] or u['keywordLocation'].count('/') > 1 for u in flat))
            if valid:
                keys = case['filter']
                arg = {'list': list, 'tuple': tuple, 'set': set, 'dict': dict.fromkeys, 'iterator': iter}[case['how']](keys)
                got = result.output('basic', annotations=arg)
                same(what, f'basic of {keys}', got[group], [u for u in flat if (tokens(u['keywordLocation']) or (None,))[-1] in keys])
                expect(got['valid'] is True and set(got) == {'valid', group}, '{}: filtered basic', what)
            # detailed: condensed
            detailed = outs['detailed']
            kids = [condense(c, valid, message, group) for c in verbose.get(group, []) if c['valid'] is valid]
            model = {'valid': valid, **{k: verbose[k] for k in UNIT}, group: kids}
            model.pop(message, None)
            got = {k: x for k, x in detailed.items() if k != message}
            expect(refjson.eq(got, model), '{}: detailed {} is not {}', what, got, model)
            expect(message not in detailed or detailed[message] == verbose.get(message), '{}: detailed message', what)
            # hierarchical: by subschema
            hierarchy(what, outs['hierarchical'], verbose, valid, reg, trace)


def same(what, name, got, want):
    expect(count(got) == count(want), '{}: {}: too many {}, missing {}', what, name,
           [u for u in got if u not in want][:4], [u for u in want if u not in got][:4])


def locate(what, verbose, reg, trace, value, prefix):
    seen = set()
    resources = {refuri.normalize(k): n for k, n in reg.resources.items()}
    for u in flatten(verbose):
        kpath, iloc = tokens(u['keywordLocation']), tokens(u['instanceLocation'])
        where = f'{what}: unit {u["keywordLocation"]!r} {u["instanceLocation"]!r}'
        expect((kpath, iloc) not in seen, '{} appears twice', where)
        seen.add((kpath, iloc))
        expect(u['valid'] is True or u['valid'] is False, '{}: valid is {!r}', where, u['valid'])
        expect('annotation' not in u or u['valid'], '{}: annotation on an invalid unit', where)
        expect('error' not in u or not u['valid'], '{}: error on a valid unit', where)
        # the instance location leads to a value
        try:
            refpointer.evaluate(value, iloc)
        except Exception:
            expect(False, '{}: no such instance location in {!r}', where, value)
        # the keyword location follows the evaluation, and the absolute one identifies the schema it leads to
        n = len(kpath)
        while kpath[:n] not in trace.target:
            n -= 1
        node, rest = trace.target[kpath[:n]], kpath[n:]
        if LEFT & set(kpath) and any(k in REFS for k in rest):
            continue
        expect(all(k not in REFS for k in rest[:-1]), '{}: leads through a reference that was not followed', where)
        if n == len(kpath) or rest[-1:] != () and rest[-1] not in REFS:
            at = node.value
            try:
                at = refpointer.evaluate(at, rest)
            except Exception:
                expect(False, '{}: does not exist in {!r}', where, node.value)
            base, frag = split(u['absoluteKeywordLocation'])
            resource = resources.get(base)
            expect(resource is not None, '{}: {} identifies no resource', where, u['absoluteKeywordLocation'])
            got, want = resource.path + frag, node.path + rest
            expect(got == want, '{}: absolute location {} leads to {}, not {}', where, u['absoluteKeywordLocation'], got, want)
        # the verdict of each subschema and of each assertion
        last = kpath[-1] if kpath else None
        if last not in ('not', 'contains', 'propertyNames') and (iloc, kpath) in trace.at:
            expect(u['valid'] is trace.at[iloc, kpath], '{}: {}, not {}', where, u['valid'], trace.at[iloc, kpath])
        expect((iloc, kpath) not in trace.failing or not u['valid'] and u.get('error') is not None, '{}: should fail, with an error', where)
        expect((iloc, kpath) not in trace.holding or u['valid'], '{}: should hold', where)
    # keywords for what is left over need not be applied once a sibling has failed
    missing = {(k, i) for i, k in trace.failing if not LEFT & set(k)} - seen
    expect(not missing, '{}: failing assertions without a unit: {}', what, sorted(missing)[:4])


def schema_at(trace, kpath):
    """[the schema text applied at a keyword path], as far as it is known"""
    n = len(kpath)
    while kpath[:n] not in trace.target:
        n -= 1
    if any(k in REFS for k in kpath[n:]) and LEFT & set(kpath):
        return None
    try:
        return [refpointer.evaluate(trace.target[kpath[:n]].value, kpath[n:])]
    except Exception:
        return None


def hierarchy(what, out, verbose, valid, reg, trace):
    nodes = {(u['keywordLocation'], u['instanceLocation']): u for u in flatten(verbose)}
    messages = {}       # (evaluation path, keyword) -> the messages of that keyword
    for u in nodes.values():
        for m in ('annotation', 'error'):
            if m in u:
                messages.setdefault((u['keywordLocation'], m), []).append(u[m])
    given, seen = {}, set()

    def visit(u, above):
        where = f'{what}: hierarchical unit {u.get("evaluationPath")!r} {u.get("instanceLocation")!r}'
        expect(set(u) >= {'valid', 'evaluationPath', 'schemaLocation', 'instanceLocation'} and
               set(u) <= {'valid', 'evaluationPath', 'schemaLocation', 'instanceLocation', 'details', 'annotations', 'errors'}, '{}: has {}', where, set(u))
        node = nodes.get((u['evaluationPath'], u['instanceLocation']))
        expect(node is not None, '{}: not in the result', where)
        expect(node['valid'] is u['valid'] and node['absoluteKeywordLocation'] == u['schemaLocation'], '{}: differs from {}', where, node)
        expect(above is None or u['evaluationPath'].startswith(above + '/'), '{}: not below {!r}', where, above)
        expect(('annotations' not in u or u['valid']) and ('errors' not in u or not u['valid']), '{}: {} with {}', where, u['valid'], list(u))
        expect(tokens(u['evaluationPath']) in trace.target or nodes[u['evaluationPath'], u['instanceLocation']] is not None, '{}', where)
        for m, g in (('annotation', 'annotations'), ('error', 'errors')):
            for k, x in u.get(g, {}).items():
                path = u['evaluationPath'] + ('/' + refpointer.write([k])[1:] if k else '')
                expect(any(refjson.eq(x, y) for y in messages.get((path, m), [])), '{}: {} {!r} of {!r} invented', where, m, x, k)
                if k == '':
                    # only a boolean schema has an error of its own
                    own = schema_at(trace, tokens(u['evaluationPath']))
                    expect(own is None or own[0] is False, '{}: an error of its own, but {}', where, own)
                else:
                    given.setdefault((path, m), []).append(x)
                    expect(len(given[path, m]) <= len(messages[path, m]), '{}: {} of {!r} given twice', where, m, k)
                seen.add((path, m))
        for c in u.get('details', []):
            visit(c, u['evaluationPath'])

    visit(out, None)
    m = 'annotation' if valid else 'error'
    for u in chain(verbose, valid):
        if m in u:
            expect((u['keywordLocation'], m) in seen, '{}: hierarchical loses the {} of {!r}', what, m, u['keywordLocation'])


RULE = 'non-trivial when more than one error or annotation is listed, some behind an applicator or reference'
ALL = {'assert': 3, 'meta': 2, 'unknown': 1, 'inplace': 3, 'object': 2, 'array': 2, 'ref': 2, 'unevaluated': 1, 'content': 1, 'format': 1, 'comment': 1}
CHECKS = [
    Check('formats', cases(ALL, 'inplace', None), formats, 2400,
          rule='schemas of every kind with references and embedded resources; ' + RULE),
    Check('objects', cases({'assert': 2, 'meta': 1, 'object': 4, 'inplace': 1, 'ref': 2, 'unevaluated': 1}, 'object', 'object', keys=gs.key), formats, 1600,
          rule='applicators over object members with awkward names; ' + RULE),
    Check('arrays', cases({'assert': 2, 'meta': 1, 'array': 4, 'inplace': 1, 'ref': 2, 'unevaluated': 1}, 'array', 'array'), formats, 1600,
          rule='applicators over array items; ' + RULE),
    Check('alike', alike, formats, 600, rule='up to four schemas of the same text in resources of their own, each referring to the next; ' + RULE),
    Check('booleans', cases({'inplace': 3, 'object': 2, 'array': 1, 'ref': 2}, 'inplace', None, booleans=6), formats, 1200,
          rule='boolean schemas everywhere; ' + RULE),
]
