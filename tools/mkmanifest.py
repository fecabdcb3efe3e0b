"""Writes MANIFEST.json from the property modules that exist."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
NOTES = {
 'C01': ('an independent model of JSON values', ''),
 'C02': ('round trips and an independent JSON reader, in several locales, over files and HTTP', ''),
 'C03': ('an independent model of JSON equality on near-equal pairs and triples', ''),
 'C04': ('plain lists and dicts under the same history (model-based)', ''),
 'C05': ('an independent RFC 6902 model over histories (model-based)', ''),
 'C06': ('an independent RFC 6901 grammar, and round trips', ''),
 'C07': ('tuples of keys as the model', ''),
 'C08': ('an independent RFC 6901 evaluator', ''),
 'C09': ('an independent model of Relative JSON Pointer, and round trips', ''),
 'C10': ('an independent RFC 6902 model', ''),
 'C11': ('aliasing and mutation invariants', ''),
 'C12': ('plain lists of operations under the same history (model-based)', ''),
 'C13': ('an independent RFC 3986 model', ''),
 'C14': ('an independent RFC 3986 model, on pairs related by rewrites', ''),
 'C15': ('a model of source registration over histories with failing sources (model-based)', ''),
 'C16': ('generated directory trees and a local HTTP server', 'Exploration: files and URLs outside the base hold sentinels; nothing outside the scratch directory and loopback is touched.'),
 'C17': ('a map per catalog and cache under the same history (model-based)', ''),
 'C18': ('an independent registry of identifiers', ''),
 'C19': ('the document and an independent registry of its subschemas', ''),
 'C20': ('an independent evaluator with exact arithmetic', ''),
 'C21': ('an independent evaluator', ''),
 'C22': ('an independent evaluator', ''),
 'C23': ('an independent evaluator over linked documents', ''),
 'C24': ('metamorphic relations between rewritten schemas, and runs in other processes', ''),
 'C25': ('repeated, interleaved, threaded and embedded evaluations compared with single ones', 'Exploration: thread schedules are those that the interpreter makes with a very short switch interval, not enumerated.'),
 'C26': ('an independent evaluator that collects annotations', ''),
 'C27': ('the result tree and an independent evaluator', ''),
 'C28': ('the published metaschema documents under an independent evaluator', ''),
 'C29': ('an independent evaluator on documents with the other keywords masked', ''),
 'C30': ('a model of registered and enabled formats over histories (model-based)', ''),
 'C32': ('the links of the tree itself, and an independent evaluator that traces schema locations', ''),
 'C33': ('a small independent evaluator of generated keyword classes', ''),
 'C34': ('a model of the cached metaschemas under the same history (model-based)', ''),
 'C35': ('a model of each catalog under the same history (model-based)', ''),
 'C36': ('the same schema in a catalog that is left alone, and an independent evaluator (differential, over histories with faults)', ''),
 'C31': ('an independent registry and evaluator that decide what must work; cache snapshots around refusals', ''),
}
DEFAULT = ('Exploration: exhaustive over nothing, but thousands of structured cases per run against an independent model; '
           'assumes the model in pbt/ref is right (cross-checked against other implementations during development).')
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    if (V / 'pbt' / 'props' / f'{p["id"].lower()}.py').exists():
        checks.append({'property': p['id'], 'quick_cmd': f'./run.sh {p["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {p["id"]}',
                       'technique': 'property-based testing (Hypothesis) against ' + NOTES.get(p['id'], ('an independent reference model', ''))[0],
                       'level': 'exploration', 'level_note': NOTES.get(p['id'], ('', DEFAULT))[1] or DEFAULT})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
(V / 'MANIFEST.json').write_text(json.dumps({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, indent=1) + '\n')
print(len(checks), 'checks')
