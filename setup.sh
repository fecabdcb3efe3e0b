#!/bin/bash
# Nothing to build: checks that the tools and vendored files are in place.
cd "$(dirname "$0")" || exit 1
/opt/veriftools/pyvenv/bin/python - <<'PY' || exit 1
import sys, pathlib
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import hypothesis, rfc3986, requests
for d in ('2019-09', '2020-12', 'next'):
    assert (pathlib.Path('metaschemas') / f'json-schema-{d}' / 'schema.json').is_file()
print('ready: hypothesis', hypothesis.__version__)
PY
