"""C25: evaluation as a pure function: interleaved histories and threads against evaluations alone."""
import itertools
import json
import sys
import threading

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refschema
from . import c23
from .common import Check, check_tree, expect
from .schemas import DIALECTS, catalog, feasible

U = 'https://pure.example/s%d'
FORMATS = ['flag', 'basic', 'detailed', 'verbose', 'hierarchical']
ALL = {'assert': 3, 'meta': 1, 'unknown': 1, 'inplace': 3, 'object': 2, 'array': 2, 'ref': 2, 'unevaluated': 2, 'format': 1}
# schemas that reach themselves on the way down
DEEP = {'assert': 2, 'ref': 4, 'inplace': 2, 'array': 4, 'object': 2}


@st.composite
def histories(draw):
    schemas = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.sampled_from(DIALECTS))
        doc = draw(gs.document(gs.Ctx(d, draw(st.sampled_from([ALL, ALL, DEEP])), refs=2, keys=gs.key), must=draw(st.sampled_from(['inplace', 'object', 'array', 'ref']))))
        if d != '2019-09' and draw(st.booleans()):
            doc['$dynamicAnchor'] = 'n'
        schemas.append({'dialect': d, 'schema': json.loads(json.dumps(doc))})
    n = draw(st.integers(2, 4))
    instances = [draw(gs.instances()) for _ in range(n)]
    s = st.integers(0, len(schemas) - 1)
    i = st.integers(0, n - 1)
    ops = st.one_of(st.tuples(st.just('evaluate'), s, i), st.tuples(st.just('evaluate'), s, i), st.tuples(st.just('evaluate'), s, i),
                    st.tuples(st.just('validate'), s), st.tuples(st.just('output'), st.integers(0, 20), st.sampled_from(FORMATS)),
                    st.tuples(st.just('collect'), st.integers(0, 20), st.integers(0, 3)),
                    st.tuples(st.just('within'), s, i), st.tuples(st.just('set'), i, st.integers(0, 9), gs.scalar),
                    st.tuples(st.just('schema as instance'), s, s), st.tuples(st.just('look'), s, i))
    return {'schemas': schemas, 'instances': instances, 'ops': [list(o) for o in draw(st.lists(ops, min_size=4, max_size=14))]}


def build(entry, i, cid):
    from jschon import JSONSchema, URI
    return JSONSchema(entry['schema'], catalog=catalog(), cacheid=cid, uri=URI(U % i), metaschema_uri=URI(refschema.META[entry['dialect']]))


def observe(result):
    """Everything there is to see of a result."""
    return {'valid': result.valid, 'verbose': result.output('verbose'), 'annotations': list(result.collect_annotations()), 'errors': list(result.collect_errors())}


def alone(entry, i, value):
    """Evaluated by a schema of its own, just created and never used again."""
    from jschon import JSON
    with catalog().cache() as cid:
        return observe(build(entry, i, cid).evaluate(JSON(value)))


def strip(out, prefix):
    """The same result, with instance locations relative to the node at the prefix."""
    if isinstance(out, dict):
        return {k: (v[len(prefix):] if k == 'instanceLocation' and isinstance(v, str) and v.startswith(prefix) else strip(v, prefix) if k in ('annotations', 'errors', 'verbose') else v)
                for k, v in out.items()}
    return [strip(x, prefix) for x in out] if isinstance(out, list) and out and isinstance(out[0], dict) and 'instanceLocation' in out[0] else out


def equal(what, got, want):
    for k in want:
        expect(refjson.same(got[k], want[k]), '{}: {} is {}, not {}', what, k, got[k], want[k])


def run(case, note):
    from jschon import JSON
    if not all(feasible(e['schema'], e['dialect'], case['instances'] + [x['schema'] for x in case['schemas']], U % i) for i, e in enumerate(case['schemas'])):
        note.label('too large')
        return
    plain = [refjson.copy(v) for v in case['instances']]
    docs = [refjson.copy(e['schema']) for e in case['schemas']]
    memo = {}

    def want(s, v):
        key = s, json.dumps(v)
        if key not in memo:
            memo[key] = alone(case['schemas'][s], s, v)
        return memo[key]

    kept = []       # (result, what it looked like)
    count = 0
    with catalog().cache() as cid:
        schemas = [build(e, i, cid) for i, e in enumerate(case['schemas'])]
        instances = [JSON(v) for v in plain]
        verdicts = {}
        for op in case['ops']:
            name = op[0]
            what = f'{op} of {case["ops"]}'
            if name in ('evaluate', 'within', 'schema as instance'):
                s = op[1]
                if name == 'evaluate':
                    result = schemas[s].evaluate(instances[op[2]])
                    got, exp = observe(result), want(s, plain[op[2]])
                elif name == 'within':
                    result = schemas[s].evaluate(JSON({'x': [1, plain[op[2]]]})['x'][1])
                    got, exp = strip(observe(result), '/x/1'), want(s, plain[op[2]])
                else:
                    result = schemas[s].evaluate(schemas[op[2]])
                    # a schema orders its members its own way
                    got, exp = {'valid': result.valid}, {'valid': want(s, docs[op[2]])['valid']}
                equal(what, got, exp)
                kept.append((result, observe(result)))
                count += 1
            elif name == 'validate':
                v = schemas[op[1]].validate()
                expect(verdicts.setdefault(op[1], v.valid) is v.valid, '{}: {}', what, v.valid)
            elif name == 'output' and kept:
                result, seen = kept[op[1] % len(kept)]
                out = result.output(op[2])
                expect(out['valid'] is seen['valid'], '{}: {}', what, out['valid'])
            elif name == 'collect' and kept:
                result, seen = kept[op[1] % len(kept)]
                # not to the end
                list(itertools.islice(result.collect_annotations(), op[2]))
                list(itertools.islice(result.collect_errors(), op[2]))
            elif name == 'look':
                _ = schemas[op[1]].value, schemas[op[1]].path, instances[op[2]].value, schemas[op[1]].metaschema
            elif name == 'set':
                v, node = plain[op[1]], instances[op[1]]
                if isinstance(v, list) and v:
                    v[op[2] % len(v)] = op[3]
                    node[op[2] % len(v)] = op[3]
                elif isinstance(v, dict) and v:
                    k = list(v)[op[2] % len(v)]
                    v[k] = op[3]
                    node[k] = op[3]
        note.nontrivial(count > 2)
        note.label('evaluations:%d' % min(count, 8))
        for result, seen in kept:
            equal('a result changed later', observe(result), seen)
        for s, doc, entry in zip(schemas, docs, case['schemas']):
            expect(refjson.same(s.value, doc) and refjson.same(entry['schema'], doc), 'the schema {} became {} from {}', doc, s.value, entry['schema'])
        for node, v in zip(instances, plain):
            check_tree(node, v)


# ------------------------------------------------------------- other schemas

def shared(case, note):
    """Several schemas that refer to one another, with dynamic references: each evaluation in a
    mixed order, twice, against the same evaluation first thing in a catalog of its own."""
    from jschon import JSON, URI
    names, documents, dialect = case['names'], case['documents'], case['dialect']
    reg = c23.registry(names, documents, dialect)
    starts = [c23.HOST + i for i in case['ids']]
    pairs = [(s, i) for s in starts for i in range(len(case['instances']))]
    for s, i in pairs:
        if c23.applied(refschema.Evaluator(reg, limit=600), reg.find(s), case['instances'][i]) is None:
            note.label('circular')
            return
    meta = URI(refschema.META[dialect])

    def setup(cid):
        c23.serve(dict(zip(names, documents)))
        for n in names:
            catalog().get_schema(URI(c23.HOST + n), cacheid=cid, metaschema_uri=meta)

    first = {}
    for s, i in pairs:
        with catalog().cache() as cid:
            setup(cid)
            first[s, i] = observe(catalog().get_schema(URI(s), cacheid=cid).evaluate(JSON(case['instances'][i])))
    note.nontrivial(len({json.dumps(f['verbose']) for f in first.values()}) > 2)
    with catalog().cache() as cid:
        setup(cid)
        for s, i in pairs + pairs[::-1]:
            got = observe(catalog().get_schema(URI(s), cacheid=cid).evaluate(JSON(case['instances'][i])))
            equal(f'{s} on {case["instances"][i]} after others', got, first[s, i])


# ------------------------------------------------------------- threads

@st.composite
def concurrent(draw):
    case = draw(histories())
    case['ops'] = []
    s = st.integers(0, len(case['schemas']) - 1)
    i = st.integers(0, len(case['instances']) - 1)
    case['threads'] = [[list(o) for o in draw(st.lists(st.tuples(s, i, st.sampled_from(['own', 'shared'])), min_size=2, max_size=5))]
                       for _ in range(draw(st.integers(2, 5)))]
    return case


def threads(case, note):
    from jschon import JSON
    if not all(feasible(e['schema'], e['dialect'], case['instances'], U % i) for i, e in enumerate(case['schemas'])):
        note.label('too large')
        return
    used = {(s, i) for t in case['threads'] for s, i, _ in t}
    want = {(s, i): alone(case['schemas'][s], s, case['instances'][i]) for s, i in used}
    note.nontrivial(len(used) > 1 and len(case['threads']) > 2)
    note.label('threads:%d' % len(case['threads']))
    with catalog().cache() as cid:
        schemas = [build(e, i, cid) for i, e in enumerate(case['schemas'])]
        common = [JSON(v) for v in case['instances']]
        barrier = threading.Barrier(len(case['threads']))
        problems = []

        def work(ops):
            barrier.wait()
            try:
                for _ in range(3):
                    for s, i, how in ops:
                        instance = common[i] if how == 'shared' else JSON(case['instances'][i])
                        got = observe(schemas[s].evaluate(instance))
                        for k, v in want[s, i].items():
                            if not refjson.same(got[k], v):
                                problems.append(f'{k} of schema {s} on instance {i} is {got[k]}, not {v}')
            except Exception as e:      # noqa
                problems.append(f'{type(e).__name__}: {e}')

        before = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(ops,)) for ops in case['threads']]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(before)
        expect(not problems, 'at the same time: {}', problems[:2])


@st.composite
def nested(draw):
    """A schema that is applied to a node while its application to the enclosing one is under way."""
    d = draw(st.sampled_from(DIALECTS))
    doc = draw(gs.document(gs.Ctx(d, {**DEEP, 'unevaluated': 1, 'meta': 1}, refs=2, booleans=1), must=draw(st.sampled_from(['array', 'object', 'inplace']))))
    leaf = st.sampled_from([0, 1, 2, 'a', 'ab', None, True, [], {}])
    deep = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(gs.simple_key, c, max_size=3)), max_leaves=14)
    return {'dialect': d, 'schema': json.loads(json.dumps(doc)), 'instances': draw(st.lists(deep, min_size=3, max_size=5)), 'extra': []}


def within(case, note):
    """Every application gives what it gives alone: the annotations, against the reference evaluator."""
    from .c26 import annotations
    from .c21 import verdict
    verdict(case, note)
    annotations(case, note)


CHECKS = [
    Check('histories', histories, run, 1600,
          rule='evaluations, validations, outputs, partial collections and instance edits over several schemas and instances, in any order; non-trivial with more than two evaluations'),
    Check('dynamic', c23.dynamic, shared, 400,
          rule='schemas that refer to one another with $dynamicRef, every start and instance in two orders against the same evaluation first thing; non-trivial with more than two different results'),
    Check('recursive', c23.recursive, shared, 240, rule='the same for $recursiveRef'),
    Check('within itself', nested, within, 1600,
          rule='schemas that refer to themselves below items and properties, on nested instances, by the verdict and annotations of the reference; non-trivial when nested or annotated'),
    Check('threads', concurrent, threads, 480,
          rule='the same schemas and instances evaluated by several threads, switching every microsecond; non-trivial with at least three threads and two different evaluations'),
]
