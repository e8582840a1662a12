#!/usr/bin/env python3
"""setup_cmd: the analyser is plain Python; check that it loads and parses the tree."""
import importlib
import os
import pkgutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa
from sa.repo import Repo  # noqa

for m in pkgutil.iter_modules(checks.__path__):
    importlib.import_module('checks.' + m.name)
r = Repo(os.environ.get('SA_REPO', '/repo'))
print('analyser loaded,', len(r.modules), 'modules of the project parsed')
