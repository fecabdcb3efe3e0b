"""Assembles DESIGN.md from the parts beside it, the checks and the seeded bugs."""
import importlib
import json
import pathlib
import sys

here = pathlib.Path(__file__).resolve().parent
verif = here.parent
sys.path.insert(0, str(verif))
out = [(here / 'design_head.md').read_text(), (here / 'design_props.md').read_text(), '## Checks\n\n| Property | Check | Cases (quick) | Cases and rule for non-trivial ones |\n|---|---|---|---|\n']
for i in range(1, 100):
    try:
        m = importlib.import_module(f'pbt.props.c{i:02d}')
    except ModuleNotFoundError:
        break
    for c in m.CHECKS:
        out.append(f'| C{i:02d} | {c.name} | {c.quick} | {c.rule} |\n')
out.append('\n' + (here / 'design_tail.md').read_text())
notes = json.loads((here / 'seeded_notes.json').read_text())
out.append("""## Planted bugs

Each was written from the statement of a property and the code, kept only if the 184 stable
tests pass with it and its demonstration fails with it and passes without. All
are caught by the check of their property; the last column says what had to be strengthened first for those that were missed.

| Bug | Needs | Strengthened |
|---|---|---|
""")
for d in sorted((verif / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    out.append(f"| {d.name} | {m['needs']} | {notes.get(d.name, '')} |\n")
text = ''.join(out) + '\n' + (here / 'design_end.md').read_text()
fixed = len(json.loads((verif / 'known_findings.json').read_text())['fixed'])
text = text.replace('{FIXED}', str(fixed)).replace('{PROPS}', str(len((verif / 'properties.jsonl').read_text().splitlines())))
(verif / 'DESIGN.md').write_text(text)
