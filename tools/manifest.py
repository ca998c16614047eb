"""Write MANIFEST.json from properties.jsonl and the harness files."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C36': 'decompression and pipes run in C extension modules and the operating system; no symbolic execution of them is within reach, '
           'and the Python code around them only picks the opening function by file suffix',
    'C37': 'the wrapped tools are compiled C++ extensions (ufal.udpipe, ufal.morphodita, ufal.nametag) with model files that are not part of '
           'the repository; their results cannot be encoded',
}
LEVEL_NOTE = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': './check %s --tier quick' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'technique': 'symbolic execution of the instrumented Python source of /repo with z3 deciding every branch and assertion over '
                         'symbolic trees, strings and integers (bounded), counterexamples replayed on the plain code',
            'level': 'model_checking',
            'level_note': 'holds for every input within the bounds listed per harness in the evidence; outside them nothing is claimed',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no harness built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -B -c "import z3" && /opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'/repo\'); import udapi.core.node"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks instrument the source at import time (sx/loader.py). See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', len(na), 'n/a')
