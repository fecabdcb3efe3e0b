"""C36: a schema, once constructed, against the same schema under a catalog where nothing else has happened."""
import gc
import json

from hypothesis import strategies as st

from pbt.gen import schemas as gs
from pbt.ref import refjson, refschema
from . import c23
from .c25 import equal, observe
from .common import Check, expect
from .schemas import catalog

FORMATS = ['json-pointer', 'email', 'date', 'ipv4', 'uuid', 'uri']
ALL = {'assert': 3, 'meta': 1, 'inplace': 3, 'object': 2, 'array': 2, 'ref': 3, 'unevaluated': 1, 'format': 2, 'unknown': 1}
DISTURB = ['end', 'delete', 'replace', 'replace', 'source', 'documents', 'enable', 'vocabulary', 'metaschema', 'metaschemas', 'catalog', 'elsewhere', 'collect']


def ops(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(DISTURB))
        arg = draw(st.integers(0, 7))
        out.append([op, arg])
    return out


def steps(draw, case):
    case['before'] = draw(st.booleans())    # whether everything is evaluated once before anything happens
    case['ops'] = ops(draw)
    # the schemas that are kept hold of; there may be no others outside the catalog
    n = len(starts(case))
    case['held'] = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=draw(st.sampled_from([1, 1, n])))))
    return case


@st.composite
def linked(draw):
    return steps(draw, draw(c23.linked()))


@st.composite
def dynamic(draw):
    return steps(draw, draw(c23.dynamic()))


@st.composite
def recursive(draw):
    return steps(draw, draw(c23.recursive()))


@st.composite
def single(draw):
    d = draw(st.sampled_from(c23.DIALECTS))
    doc = json.loads(json.dumps(draw(gs.document(gs.Ctx(d, ALL, refs=2, keys=gs.key)))))
    if draw(st.integers(0, 2)):
        doc['format'] = draw(st.sampled_from(FORMATS))
    text = st.sampled_from(['', '/', 'a', '127.0.0.1', '2020-01-01', 'a@b.example', 'urn:x:y'])
    return steps(draw, {'dialect': d, 'names': ['s'], 'documents': [doc], 'instances': draw(st.lists(st.one_of(gs.instances(), text), min_size=2, max_size=4))})


def others(case):
    """Documents to put in the place of those that were used."""
    anchors = [{'$dynamicAnchor': a, 'properties': {'v': {'enum': []}, 'c': False}} for a in ('n', 'm')] if case['dialect'] != '2019-09' else []
    plain = [{'$anchor': a, 'not': {}} for a in ('n', 'm')]
    return [False, {}, {'not': {}, '$defs': {'N': a for a in anchors[:1]}}, {'$defs': {'Dn': a for a in anchors[-1:]}, 'type': 'null'},
            {**(anchors[0] if anchors else {'$recursiveAnchor': True, 'not': {}})}, {'$defs': {'x': plain[0]}, 'required': ['nothing']}, {'properties': {'v': False, 'a': False}, 'items': False}, True]


class World:
    """The documents of a case, in a cache, possibly in a catalog of their own."""

    def __init__(self, case, cat, cid):
        from jschon import URI
        from jschon.catalog import Source
        self.cat, self.cid = cat, cid
        self.meta = URI(refschema.META[case['dialect']])
        self.documents = [c23.fresh(d) for d in case['documents']]
        self.loads = loads = []
        served = dict(zip(case['names'], self.documents))

        class Served(Source):
            def __call__(self, relative_path):
                loads.append(relative_path)
                return served[relative_path]
        cat.add_uri_source(URI(c23.HOST), Served())
        first = [0] + [p for p in case.get('order', []) if p]
        self.schemas = {}
        for pos in first:
            cat.get_schema(URI(c23.HOST + case['names'][pos]), cacheid=cid, metaschema_uri=self.meta)
        for s in held(case):
            self.schemas[s] = cat.get_schema(URI(s), cacheid=cid, metaschema_uri=self.meta)

    def look(self, s, v):
        from jschon import JSON
        result = self.schemas[s].evaluate(JSON(v))
        return {**observe(result), 'basic': result.output('basic'), 'hierarchical': result.output('hierarchical')}

    def validity(self, s):
        schema = self.schemas[s]
        return schema.validate().output('basic') if schema.type == 'object' else None


def starts(case):
    return [c23.HOST + i for i in case.get('ids', case['names'])]


def held(case):
    return [starts(case)[k] for k in case['held']]


def run(case, note):
    from jschon import JSONSchema, Catalog, URI, create_catalog
    from jschon.catalog import Source
    from jschon.exc import JschonError
    from jschon.vocabulary import Keyword
    reg = c23.registry(case['names'], case['documents'], case['dialect'])
    pairs = [(s, i) for s in held(case) for i in range(len(case['instances']))]
    verdicts = {}
    for s, i in pairs:
        try:
            verdicts[s, i] = refschema.Evaluator(reg, limit=1500).run(reg.find(s), case['instances'][i]).valid
        except (RecursionError, RuntimeError):
            note.label('circular or too large')
            return
    # what there is to see where nothing else happens
    with catalog().cache() as cid:
        world = World(case, catalog(), cid)
        want = {(s, i): world.look(s, case['instances'][i]) for s, i in pairs}
        valid = {s: world.validity(s) for s in held(case)[:2]}
    if not any('format' in n.value for n in reg.nodes.values() if isinstance(n.value, dict)):
        for p in pairs:
            expect(want[p]['valid'] is verdicts[p], '{} is {}, not {}', p, want[p]['valid'], verdicts[p])

    cat = create_catalog(*c23.DIALECTS, name='pbt-contained')
    other = create_catalog(*c23.DIALECTS, name='pbt-contained-other')
    scope = cat.cache()
    cid = scope.__enter__()
    world = World(case, cat, cid)
    calls = []

    def check(when):
        for s, i in pairs:
            before = len(world.loads), len(calls)
            got = world.look(s, case['instances'][i])
            equal(f'{s} on {case["instances"][i]} {when}', got, want[s, i])
            expect((len(world.loads), len(calls)) == before, 'evaluation of {} on {} {} loads {} {}', s, case['instances'][i], when, world.loads[before[0]:], calls[before[1]:])

    uris = sorted({n.base for n in reg.nodes.values()} | {f'{base}#{name}' for base, name in reg.anchors} | {c23.HOST + n for n in case['names']})
    metas = [str(world.meta)] + [str(world.meta).replace('/schema', '/meta/' + x) for x in ('core', 'applicator', 'validation', 'unevaluated')]
    docs = others(case)
    kept = []
    done = []
    try:
        if case['before']:
            check('at first')
            kept = [((s, i), world.schemas[s].evaluate(node(case['instances'][i]))) for s, i in pairs]
        for op, arg in case['ops']:
            done.append([op, arg])
            if op == 'end':
                if scope is not None:
                    scope.__exit__(None, None, None)
                    scope = None
                if arg > 3:
                    gc.collect()
            elif op == 'delete':
                # every nth, all for 0
                for u in uris[arg % 4 and arg % len(uris)::max(arg % 3, 1)]:
                    cat.del_schema(URI(u), cacheid=cid)
            elif op == 'replace':
                for k, u in enumerate(uris):
                    if '#' in u or (arg > 4 and k % 2):
                        continue
                    try:
                        JSONSchema(c23.fresh(docs[(arg + k * (arg % 2)) % len(docs)]), catalog=cat, cacheid=cid, uri=URI(u), metaschema_uri=world.meta)
                    except JschonError:
                        note.label('refused')
            elif op == 'source':
                class Gone(Source):
                    def __call__(self, relative_path):
                        calls.append(relative_path)
                        if arg % 2:
                            raise OSError('gone')
                        return docs[arg]
                for base in [c23.HOST] + ['https://json-schema.org/draft/%s/' % case['dialect']] * (arg > 3):
                    cat.add_uri_source(URI(base), Gone())
            elif op == 'documents':
                for d in world.documents:
                    for container in [v for _, v in refjson.walk(d) if isinstance(v, (dict, list))]:
                        if arg % 2:
                            container.clear()
                        elif isinstance(container, dict):
                            container['not'] = {}
                            container.pop('$id', None)
                        else:
                            container.append('added')
            elif op == 'enable':
                cat.enable_formats(*FORMATS[arg % 3:])
            elif op == 'vocabulary':
                class Never(Keyword):
                    key = 'type'

                    def evaluate(self, instance, result):
                        result.fail('never')
                name = ['validation', 'core', 'applicator', 'unevaluated'][arg % 4]
                cat.create_vocabulary(URI('https://json-schema.org/draft/%s/vocab/%s' % (case['dialect'], name)), *([Never] if arg < 4 else []))
            elif op == 'metaschema':
                class Changed(Source):
                    def __call__(self, relative_path):
                        return {'$id': str(world.meta), '$schema': str(world.meta), '$vocabulary': {'https://json-schema.org/draft/%s/vocab/core' % case['dialect']: True}, '$comment': 'changed'}
                cat.add_uri_source(URI('https://json-schema.org/draft/%s/' % case['dialect']), Changed())
                try:
                    cat.create_metaschema(world.meta)
                except JschonError:
                    note.label('metaschema refused')
            elif op == 'metaschemas':
                for k, m in enumerate(metas):
                    if not arg or k % arg == 0:
                        if arg % 2:
                            cat.del_schema(URI(m), cacheid='__meta__')
                        else:
                            cat.add_schema(URI(m), JSONSchema(False, catalog=other), cacheid='__meta__')
            elif op == 'catalog':
                if arg % 2:
                    create_catalog(*c23.DIALECTS, name='pbt-contained')
                else:
                    Catalog('pbt-contained')
            elif op == 'elsewhere':
                # the same documents and other ones, in another cache and another catalog
                for c in (cat, other):
                    try:
                        World({**case, 'documents': [c23.fresh(d) for d in (docs[arg:] + docs)[:len(case['documents'])]] if arg % 2 else case['documents']}, c, 'elsewhere')
                    except (JschonError, AttributeError, KeyError, OSError):
                        note.label('refused elsewhere')
            elif op == 'collect':
                gc.collect(2 if arg % 2 else 0)
            check(f'after {done}')
        for s in valid:
            got = world.validity(s)
            expect(got == valid[s], 'the validity of {} after {} is {}, not {}', s, done, got, valid[s])
        for p, result in kept:
            equal(f'the earlier result of {p} after {done}', observe(result), {k: want[p][k] for k in ('valid', 'verbose', 'annotations', 'errors')})
    finally:
        if scope is not None:
            scope.__exit__(None, None, None)
    note.label(*sorted({op for op, _ in done}))
    note.nontrivial(len({json.dumps(w['verbose']) for w in want.values()}) > 1)


def node(value):
    from jschon import JSON
    return JSON(value)


CHECKS = [
    Check('linked', linked, run, 400,
          rule='documents that refer to one another, all constructed, then evaluated between caches ending and entries being deleted and replaced, sources, formats, vocabularies, metaschemas and catalogs changing; non-trivial with more than one distinct result'),
    Check('dynamic', dynamic, run, 400, rule='the same with dynamic references'),
    Check('recursive', recursive, run, 200, rule='the same with recursive references'),
    Check('single', single, run, 300, rule='the same for single schemas of all keywords, formats among them'),
]
