#!/usr/bin/env python3
"""Plant a bug: python3 tools/plant.py SPEC.py  (SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS; or BUGS=[dict]).
Works in a scratch copy of /repo, confirms build, tests and demonstration, then writes /verif/seeded/ID."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '036db3a'
REPO = os.environ.get('UDAPI_REPO', '/repo')

def sh(cmd, cwd, env=None, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

HELP = '''import sys, os, io, contextlib
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''

def plant(b):
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree(REPO, copy, symlinks=True)
        touched = set()
        for f, old, new in b['EDITS']:
            p = os.path.join(copy, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['ID'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff'], copy)
        base_added = sh(['git', 'diff', BASE, 'HEAD', '-U0'], REPO)[1]
        added = {l[1:] for l in base_added.split('\n') if l.startswith('+') and not l.startswith('+++')}
        gone = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        mine = [l for l in gone if l in added and l.strip()]
        if mine:
            print(b['ID'], 'WARNING: changes lines of fix commits:', mine[:3])
        out = os.path.join(tmp, 'demo')
        os.makedirs(out)
        open(out + '/demo.py', 'w').write(HELP + b['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        rc0, o0 = sh(['sh', out + '/demo.sh'], REPO)
        rc1, o1 = sh(['sh', out + '/demo.sh'], copy)
        if rc0 != 0 or rc1 == 0:
            print(b['ID'], 'DEMO WRONG: unchanged', rc0, 'changed', rc1, '\n', o0[-800:], '\n--\n', o1[-800:])
            return False
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + copy).replace('/repo/bin', copy + '/bin').replace('PYTHONPATH=/repo', 'PYTHONPATH=' + copy)
        open(tmp + '/test.sh', 'w').write(t)
        sh(['bash', tmp + '/test.sh', tmp + '/t.json'], copy)
        res = json.load(open(tmp + '/t.json'))
        good = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad = good - set(res['passed'])
        if bad:
            print(b['ID'], 'TESTS FAIL', bad)
            return False
        dst = os.path.join(HERE, 'seeded', b['ID'])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(out, f), dst)
        json.dump({'property': b['PROP'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(dst + '/meta.json', 'w'), indent=1)
        print(b['ID'], 'planted; demo on change said:', o1.strip().split('\n')[-1][:100])
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    m = runpy.run_path(sys.argv[1])
    for b in m['BUGS']:
        if len(sys.argv) < 3 or b['ID'] in sys.argv[2:]:
            plant(b)
