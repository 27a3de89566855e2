# -*- coding: utf-8 -*-
'''plant.py make [id...]: writes /verif/seeded/<id>/ from tools/plant/bugs.py
plant.py confirm [id...]: in a scratch copy of /repo: applies, builds, runs the stable tests and the demonstration
plant.py hunt [id...]: runs the check of the property on a scratch copy with the bug'''
import difflib
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def bugs():
    import bugs as B
    return B.BUGS


def patch(b):
    out = ''
    for f, changes in b['edits'].items():
        src = open(os.path.join('/repo', f)).read()
        dst = src
        for old, new in changes:
            assert dst.count(old) == 1, (b['id'], f, dst.count(old), old)
            dst = dst.replace(old, new)
        out += ''.join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True), 'a/' + f, 'b/' + f))
    return out


def make(b):
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    w = lambda n, s: open(os.path.join(d, n), 'w').write(s)
    w('patch.diff', patch(b))
    w('demo.sh', '#!/bin/bash\nexec env PYTHONHASHSEED=0 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    w('demo.py', 'import h\nfrom h import *\n\n' + b['demo'].strip('\n') + '\n')
    w('meta.json', json.dumps({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
    shutil.copy(os.path.join(HERE, 'h.py'), d)
    for n in ('pdfw.py', 'docxr.py', 'rewrite.py'): w(n, open(os.path.join(ROOT, 'vt', n)).read().replace('from . import', 'import'))


def scratch(i):
    d = '/tmp/plant-%s' % i
    subprocess.run(['rm', '-rf', d])
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('outputs', '__pycache__'))
    return d


def demo(i, d):
    r = subprocess.run(['bash', os.path.join(ROOT, 'seeded', i, 'demo.sh')], cwd=d, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + ':/opt/vp/compat', PYTHONNOUSERSITE='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    os.makedirs(d + '/test/outputs', exist_ok=True)
    subprocess.run([PY, '-m', 'pytest', '-q', '-n', '8', '-p', 'oldnames', '-p', 'no:cacheprovider', '--timeout=120', '-W', 'ignore::DeprecationWarning',
                    '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml', 'test/test.py'], cwd=d, env=env, capture_output=True)
    subprocess.run(['python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/j.xml'], cwd=d, capture_output=True)
    o, b = json.load(open(d + '/o.json')), json.load(open('/opt/vp/BASELINE.json'))
    return set(b['stable']) - set(o.get('passed', []))


def confirm(i, full=True):
    d = scratch(i)
    try:
        a = demo(i, d)
        r = subprocess.run(['git', 'apply', os.path.join(ROOT, 'seeded', i, 'patch.diff')], cwd=d, capture_output=True, text=True)
        if r.returncode: return 'patch: ' + r.stderr
        b = demo(i, d)
        t = tests(d) if full else set()
        ok = a[0] == 0 and b[0] != 0 and not t
        return '%s  [clean %d, bug %d%s]%s' % ('ok' if ok else 'NOT OK', a[0], b[0], ', tests broken: %s' % sorted(t) if t else '',
                                            '' if a[0] == 0 and b[0] != 0 and 'FAILED' in b[1] else '\n' + a[1] + b[1])
    finally:
        subprocess.run(['rm', '-rf', d])


def hunt(i, pid, tier='quick', seed='1'):
    d = scratch(i)
    try:
        subprocess.run(['git', 'apply', os.path.join(ROOT, 'seeded', i, 'patch.diff')], cwd=d)
        r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), pid, tier], env=dict(os.environ, VT_REPO=d, VERIF_SEED=seed), capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('  [')]
        return '%s %s exit %d %s' % ('CAUGHT' if r.returncode == 1 else 'MISSED', pid, r.returncode, '; '.join(x[:110] for x in v[:3]) or r.stdout[-200:])
    finally:
        subprocess.run(['rm', '-rf', d])


def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    for b in bugs():
        if ids and b['id'] not in ids: continue
        if cmd == 'make': make(b)
        elif cmd == 'confirm':
            make(b)
            print(b['id'], confirm(b['id']), flush=True)
        elif cmd == 'hunt': print(b['id'], hunt(b['id'], b['property'], seed=os.environ.get('VERIF_SEED', '1')), flush=True)


main()
