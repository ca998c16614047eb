#!/usr/bin/env python3
"""Write DESIGN.md: the text below, the bounds of every harness, the planted bugs and the findings."""
import ast
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, 'tools', 'design_head.md'), encoding='utf-8').read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md'), encoding='utf-8').read()
ORACLE = {}
for line in open(os.path.join(V, 'tools', 'oracles.txt'), encoding='utf-8'):
    if line.strip():
        i, _, text = line.strip().partition(' ')
        ORACLE[i] = text


def harnesses(path):
    for n in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and ast.unparse(d.func) == 'sx.harness':
                    kw = {}
                    for k in d.keywords:
                        if k.arg in ('quick', 'thorough', 'bounds'):
                            try:
                                kw[k.arg] = eval(ast.unparse(k.value), {})
                            except NameError:
                                kw[k.arg] = '`%s`' % ast.unparse(k.value)[:80]
                    yield n.name, kw


def show(params):
    if isinstance(params, str):
        return params
    def one(d):
        return '(' + ', '.join('%s=%s' % (k, v) for k, v in d.items() if k != 'unreached') + ')' if d else '()'
    return ' '.join(one(d) for d in params[:8]) + (' …' if len(params) > 8 else '')


out = [HEAD.rstrip(), '']
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
for p in props:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    out.append('')
    out.append('Decided by: ' + ORACLE.get(i, '(missing)'))
    out.append('')
    path = os.path.join(V, 'harness', i.lower() + '.py')
    if os.path.exists(path):
        out.append('Why tests cannot: ' + p['why_tests_cant'])
        out.append('')
        for name, kw in harnesses(path):
            out.append('- `%s`: %s. Quick: %s; thorough: %s.' % (name, kw.get('bounds', ''), show(kw.get('quick', [])), show(kw.get('thorough', kw.get('quick', [])))))
        out.append('')
out += ['## Planted bugs (seeded/)', '', 'Each is caught by the check of its property (tools/trybugs.sh, vcheck).', '',
        '| bug | property | what it needs | what it breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m, encoding='utf-8'))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks']))
out += ['', '## Genuine defects found', '', 'Repaired by one `fix:` commit each in /repo (from known_findings.txt):', '']
for line in open(os.path.join(V, 'known_findings.txt'), encoding='utf-8'):
    kind, _, rest = line.strip().partition(': property=')
    if kind in ('fixed', 'known'):
        i, h, text = rest.split(' ', 2)
        out.append('- %s %s: %s%s' % (i, h, text, '' if kind == 'fixed' else ' (not repaired)'))
out += ['', TAIL.rstrip(), '']
with open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8') as fh:
    fh.write('\n'.join(out))
print(len(out), 'lines; missing oracles:', [p['id'] for p in props if p['id'] not in ORACLE])
