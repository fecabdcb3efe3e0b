"""C26: annotations, in total, by keyword and by location, against the reference evaluator."""
from collections import Counter

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refschema
from .common import Check, expect, node_at
from .c22 import around
from .schemas import DIALECTS, UNSPECIFIED, annotation, built, tokens

MAX_STEPS = 3000


def observed(unit, key='annotation'):
    k = tokens(unit['keywordLocation'])
    return tokens(unit['instanceLocation']), k, annotation(k[-1], unit[key])


def show(diff):
    return sorted(diff.elements(), key=repr)[:6]


def agree(what, got, want):
    expect(got == want, '{}: too many {}, missing {}', what, show(got - want), show(want - got))


def annotations(case, note):
    from jschon import JSON
    d, doc = case['dialect'], case['schema']
    reg = refschema.Registry()
    root = reg.add('doc', doc, 'https://ref.example/root', d)
    skip = UNSPECIFIED[d]
    with built(doc, d) as schema:
        for v in case['instances']:
            try:
                out = refschema.Evaluator(reg, limit=MAX_STEPS).run(root, v)
            except RuntimeError:
                note.label('too large')
                continue
            # a null annotation cannot be told from none
            want = [(i, kp, k, annotation(k, x)) for i, kp, k, x in out.notes if k not in skip and x is not None]
            instance = JSON(v)
            result = schema.evaluate(instance)
            what = f'{d}: {doc} on {v!r}'
            expect(result.valid is out.valid, '{}: {}, not {}', what, result.valid, out.valid)
            if not out.valid:
                note.label('invalid')
                expect(list(result.collect_annotations()) == [], '{}: annotations though invalid', what)
                errors = list(result.collect_errors())
                expect(len(errors) > 0 and all(e is not None for e in errors), '{}: no error', what)
                expect('annotations' not in result.output('basic') and len(result.output('basic')['errors']) == len(errors), '{}: basic errors', what)
                continue
            note.label('valid', 'annotations:%d' % min(len(want) // 3 * 3, 12))
            note.nontrivial(len(want) > 2)
            expect(list(result.collect_errors()) == [], '{}: errors though valid', what)
            # by evaluation path, through the basic output
            basic = result.output('basic')
            got = Counter(o for o in map(observed, basic['annotations']) if o[1][-1] not in skip)
            agree(what, got, Counter((i, kp, x) for i, kp, k, x in want))
            # in total, by keyword, by instance, and both
            keys = sorted({k for _, _, k, _ in want} | set(case['extra']) - skip)
            for k in keys:
                agree(f'{what}, {k}', Counter(annotation(k, x) for x in result.collect_annotations(key=k)),
                      Counter(x for _, _, kk, x in want if kk == k))
            locations = [p for p, _ in refjson.walk(v)]
            n = len(list(result.collect_annotations()))
            expect(n == len(basic['annotations']), '{}: {} annotations in all, {} in basic output', what, n, len(basic['annotations']))
            per = 0
            for p in locations:
                node = node_at(instance, p)
                per += len(list(result.collect_annotations(node)))
                for k in keys:
                    agree(f'{what}, {k} at {p}', Counter(annotation(k, x) for x in result.collect_annotations(node, k)),
                          Counter(x for i, _, kk, x in want if kk == k and i == p))
            names = sum(1 for i, kp, _, _ in want if 'propertyNames' in kp)
            expect(per <= n if names else per == n, '{}: {} annotations over all locations, {} in all', what, per, n)


def cases(weights, must, kinds, **kw):
    @st.composite
    def make(draw):
        d = draw(st.sampled_from(DIALECTS))
        doc = draw(gs.document(gs.Ctx(d, weights, **kw), must=must))
        return {'dialect': d, 'schema': doc, 'instances': draw(st.lists(gs.instances(kinds), min_size=2, max_size=5)),
                'extra': ['title', 'items', 'properties', 'format', 'foo', 'default']}
    return make


def evaluated(kind):
    def make():
        return around(kind, None)().map(lambda c: {**c, 'extra': ['title', 'required', 'items', 'properties']})
    return make


RULE = 'on valid instances also the selections by keyword, by location and by both; non-trivial when there are more than two annotations'
CHECKS = [
    Check('metadata', cases({'meta': 3, 'unknown': 2, 'content': 1, 'format': 1, 'inplace': 3, 'object': 1, 'array': 1, 'assert': 1, 'ref': 1, 'comment': 1}, 'inplace', None,
                            refs=2, keys=gs.key), annotations, 3200,
          rule='metadata, content, format and unknown keywords under applicators that pass and fail; ' + RULE),
    Check('objects', cases({'meta': 1, 'object': 4, 'inplace': 1, 'unevaluated': 1, 'assert': 1}, 'object', 'object', keys=gs.key), annotations, 1600,
          rule='name-list annotations on objects; ' + RULE),
    Check('arrays', cases({'meta': 1, 'array': 4, 'inplace': 1, 'unevaluated': 1, 'assert': 1}, 'array', 'array'), annotations, 1600,
          rule='index annotations on arrays; ' + RULE),
    Check('evaluated properties', evaluated('object'), annotations, 1600,
          rule='in-place branches under unevaluatedProperties; ' + RULE),
    Check('evaluated items', evaluated('array'), annotations, 1600,
          rule='in-place branches under unevaluatedItems; ' + RULE),
]
