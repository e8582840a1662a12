#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/ and the registered checks."""
import importlib
import json
import os
import pkgutil
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from meta import base  # noqa
import meta  # noqa
import checks  # noqa
from sa import core  # noqa

for m in sorted(x.name for x in pkgutil.iter_modules(meta.__path__)):
    importlib.import_module('meta.' + m)
for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
    importlib.import_module('checks.' + m)
na = dict(base.NA)
ids = [p['id'] for p in base.PROPS]
assert set(core.REGISTRY) <= set(ids), set(core.REGISTRY) - set(ids)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(base.PROPS, key=lambda p: p['id']):
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks_ = []
for p in sorted(base.PROPS, key=lambda p: p['id']):
    i = p['id']
    if i in core.REGISTRY:
        assert i not in na
        c = core.REGISTRY[i]
        checks_.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                            evidence_file='evidence/%s.json' % i, technique='static analysis: ' + c.technique, level='other',
                            level_note=p['_note'] or ('sound for the analysed construct class: ' + c.rule)))
    else:
        assert i in na, i
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3 setup_check.py', checks=checks_,
                   not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
                   notes='All checks parse /repo on every run; nothing of the project is imported or executed. '
                         'gen_meta.py regenerates this file and properties.jsonl.'), f, indent=1)
    f.write('\n')
print(len(base.PROPS), 'properties,', len(checks_), 'checks')
