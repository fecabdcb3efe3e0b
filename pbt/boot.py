"""Puts the code under test on sys.path.

The package in /repo is copied, as it stands in the working tree now, into a
scratch directory together with the metaschema files (which are git
submodules missing from this checkout, vendored in /verif/metaschemas), so
that nothing is ever written under /repo and no stale byte code is used.
"""
import os
import pathlib
import shutil
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('PBT_REPO', '/repo'))
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
DIALECTS = ('2019-09', '2020-12', 'next')


def build(dest):
    """Copy the package into dest/jschon and fill in the metaschemas."""
    src = REPO / 'jschon'
    if not src.is_dir():
        raise SystemExit(f'no package at {src}')
    pkg = pathlib.Path(dest) / 'jschon'
    shutil.copytree(src, pkg, ignore=shutil.ignore_patterns('__pycache__', '*.pyc', '.git'))
    for d in DIALECTS:
        target = pkg / 'catalog' / f'json-schema-{d}'
        if target.exists():
            shutil.rmtree(target)
        shutil.copytree(VERIF / 'metaschemas' / f'json-schema-{d}', target)
    return str(dest)


def activate(farm):
    sys.dont_write_bytecode = True
    sys.path.insert(0, farm)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)


def check_loaded(farm):
    import jschon
    assert os.path.realpath(jschon.__file__).startswith(os.path.realpath(farm)), jschon.__file__
