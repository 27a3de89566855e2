# -*- coding: utf-8 -*-
'''Mutation testing of the checks (a development tool, no check uses it).

    mutate.py corpus DIR            PDF files and settings of the quick cases of all properties
    mutate.py list FILE..           number of mutants
    mutate.py run DIR OUT SEED N [FILE-SUBSTRING]   N random mutants: does the docx of the corpus change, and which check notices?
'''
import ast
import glob
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, ROOT)
PY = '/opt/venv/bin/python'
REPO = '/repo'
SKIP = ('gui', 'plot')
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in']}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in'}
NAMES = {'x0': 'x1', 'x1': 'x0', 'y0': 'y1', 'y1': 'y0', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'left': 'right', 'right': 'left',
         'before_space': 'after_space', 'after_space': 'before_space', 'width': 'height', 'height': 'width', 'floor': 'ceil', 'intersects': 'contains', 'append': 'insert_'}


def mutants(path):
    '''(line, old, new, whole new source)'''
    src = open(path).read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.encode().split(b'\n'): starts.append(starts[-1] + len(l) + 1)
    b = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def sub(a, e, new, line):
        out.append((line, b[a:e].decode(), new, (b[:a] + new.encode() + b[e:]).decode()))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0]); docs.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef) and any(s in n.name for s in SKIP + ('__repr__', '__str__')):
            for m in ast.walk(n): docs.add(m)
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            for m in ast.walk(n): docs.add(m)
    for n in ast.walk(tree):
        if n in docs or not hasattr(n, 'lineno'): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, e = pos(n.left)[1], pos(n.comparators[0])[0]
            mid = b[a:e].decode()
            s = SYM[type(n.ops[0])]
            for new in CMP[type(n.ops[0])]:
                if mid.count(s) == 1: sub(a, e, mid.replace(s, ' %s ' % new), n.lineno)
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                a, e = pos(v)
                sub(a, e, 'True' if isinstance(n.op, ast.And) else 'False', n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            a, e = pos(n.left)[1], pos(n.right)[0]
            mid = b[a:e].decode()
            s, t = {ast.Add: '+-', ast.Sub: '-+', ast.Mult: '*/', ast.Div: '/*'}[type(n.op)]
            if mid.count(s) == 1: sub(a, e, mid.replace(s, t), n.lineno)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                sub(*pos(n), '(%s)' % b[slice(*pos(n.left))].decode(), n.lineno)
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False: sub(*pos(n), str(not v), n.lineno)
            elif isinstance(v, int): sub(*pos(n), str(v + 1), n.lineno)
            elif isinstance(v, float):
                for z in (1.5, .5): sub(*pos(n), repr(v * z if v else z), n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): sub(*pos(n), '(%s)' % b[slice(*pos(n.operand))].decode(), n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): sub(*pos(n), '(%s)' % b[slice(*pos(n.operand))].decode(), n.lineno)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, e = pos(n.test)
            sub(a, e, 'not (%s)' % b[a:e].decode(), n.lineno)
            if isinstance(n, ast.If): sub(a, e, 'False', n.lineno)
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load): sub(*pos(n), NAMES[n.id], n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load):
            a, e = pos(n)
            sub(e - len(n.attr), e, NAMES[n.attr], n.lineno)
        elif isinstance(n, (ast.Continue, ast.Break)): sub(*pos(n), 'pass', n.lineno)
        elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): sub(*pos(n), 'pass', n.lineno)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): sub(*pos(n), 'pass', n.lineno)
    good = []
    for line, old, new, s in out:
        try: compile(s, path, 'exec')
        except SyntaxError: continue
        good.append((line, old, new, s))
    return good


CHILD = r'''
import sys, os, json, hashlib, pickle
sys.path.insert(0, %(root)r)
from vt import env
env.load()
from vt import conv, canon
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp, signal
def one(a):
    i, path, kw = a
    def alarm(*_): raise BaseException('time')
    signal.signal(signal.SIGALRM, alarm); signal.alarm(60)
    try:
        d = open(path, 'rb').read()
        r = conv.convert(d, parse=False, **kw)
        h = hashlib.sha1(b'|'.join(canon.sections(r.data))).hexdigest() if r.data else repr(r.error)[:80]
        if r.ignored: h += str(r.ignored)[:80]
        with conv.scratch() as t:
            p = os.path.join(t, 'a.pdf'); open(p, 'wb').write(d)
            from pdf2docx import Converter
            with conv.quiet():
                cv = Converter(p)
                try: h += hashlib.sha1(repr(cv.extract_tables(kwargs=kw.get('kwargs') or {})).encode()).hexdigest()[:6]
                except Exception as e: h += repr(e)[:40]
                cv.close()
        return i, h
    except BaseException as e: return i, 'failed ' + repr(e)[:80]
    finally: signal.alarm(0)
jobs = json.load(open(%(jobs)r))
with ProcessPoolExecutor(int(os.environ.get('VT_NPROC', '8')), mp_context=mp.get_context('fork')) as ex:
    res = dict(ex.map(one, jobs, chunksize=8))
json.dump(res, open(%(out)r, 'w'))
os._exit(0)
'''


def corpus(out, per=40):
    from vt import env
    env.load()
    from vt import core, conv
    import inspect
    os.makedirs(out, exist_ok=True)
    conv.SCRATCH = tempfile.mkdtemp()
    os.environ['VT_SCRATCH'] = conv.SCRATCH
    jobs, state = [], {}
    real = conv.convert

    def fake(pdf, parse=True, **kw):
        if isinstance(pdf, bytes) and set(kw) <= {'kwargs'} and not (kw.get('kwargs') or {}).get('multi_processing'):
            try: json.dumps(kw)
            except TypeError: return real(pdf, parse, **kw)
            h = hashlib.sha1(pdf).hexdigest()[:12]
            path = os.path.join(out, state['pid'] + '-' + h + '.pdf')
            if not os.path.exists(path) and state['n'] < per:
                with open(path, 'wb') as f: f.write(pdf)
                jobs.append((os.path.basename(path), path, kw))
                state['n'] += 1
        return real(pdf, parse, **kw)
    conv.convert = fake
    for f in sorted(glob.glob(ROOT + '/vt/props/c*.py')):
        pid = os.path.basename(f)[:-3].upper()
        if pid in ('C12', 'C15', 'C21'): continue
        mod = core.load(pid)
        for m in (mod, ):
            if getattr(m, 'convert', None) is real: m.convert = fake
        state.update(pid=pid, n=0)
        cs = mod.cases('quick', random.Random(pid + ':1'))
        random.Random(3).shuffle(cs)
        for c in cs:
            core.run_case(mod, c, 60)
            if state['n'] >= per: break
        print(pid, state['n'], flush=True)
    for p in sorted(glob.glob(REPO + '/test/samples/*.pdf')):
        q = os.path.join(out, 'S-' + os.path.basename(p))
        shutil.copy(p, q)
        jobs.append((os.path.basename(q), q, {}))
    json.dump(jobs, open(os.path.join(out, 'jobs.json'), 'w'))
    shutil.rmtree(conv.SCRATCH)
    os._exit(0)


def observe(repo, dir, nproc, jobs='jobs.json'):
    with tempfile.TemporaryDirectory() as t:
        s = os.path.join(t, 's.py')
        o = os.path.join(t, 'o.json')
        with open(s, 'w') as f: f.write(CHILD % dict(root=ROOT, jobs=os.path.join(dir, jobs), out=o))
        try: r = subprocess.run([PY, s], env=dict(os.environ, VT_REPO=repo, VT_NPROC=str(nproc)), capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired: return None
        return json.load(open(o)) if os.path.exists(o) else None


def copy():
    d = tempfile.mkdtemp(prefix='mut-')
    subprocess.run(['cp', '-a', os.path.join(REPO, 'pdf2docx'), os.path.join(d, 'pdf2docx')], check=True)
    for n in os.listdir(REPO):
        if n not in ('pdf2docx', '.git'): os.symlink(os.path.join(REPO, n), os.path.join(d, n))
    return d


def check(pid, repo, nproc, root):
    try: r = subprocess.run([PY, 'check.py', pid, 'quick'], cwd=root, env=dict(os.environ, VT_REPO=repo, VT_NPROC=str(nproc)), capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired: return 'timeout', ''
    k = [l for l in r.stdout.split('\n') if l.startswith('  [')]
    return r.returncode, (k or [''])[0][:200]


def one(a):
    f, line, old, new, src, dir, base, nproc = a
    repo = copy()
    root = tempfile.mkdtemp(prefix='mutv-')       # the checks write evidence
    try:
        subprocess.run(['cp', '-a', ROOT + '/vt', ROOT + '/check.py', ROOT + '/known_findings.json', root], check=True)
        with open(os.path.join(repo, f), 'w') as g: g.write(src)
        res = dict(file=f, line=line, old=old, new=new, text=src.split('\n')[line - 1].strip()[:160])
        if os.path.exists(os.path.join(dir, 'first.json')):     # some of them, to see gross ones early
            o = observe(repo, dir, nproc, 'first.json')
            if o is None: res.update(state='broken'); return res
            if sum(o[k] != base.get(k, o[k]) for k in o) > .5 * len(o): res['state'] = 'gross'; return res
        o = observe(repo, dir, nproc)
        if o is None: res.update(state='broken'); return res
        diff = [k for k in base if o.get(k) != base[k]]
        by = {}
        for k in diff: by[k.split('-')[0]] = by.get(k.split('-')[0], 0) + 1
        res['diff'] = by
        if not diff: res['state'] = 'same'; return res
        if len(diff) > .5 * len(base): res['state'] = 'gross'; return res
        res['example'] = diff[:4]
        order = sorted((k for k in by if k != 'S'), key=lambda k: -by[k])
        for extra in ('C20', 'C16', 'C13', 'C17', 'C07', 'C26', 'C22'):
            if extra not in order: order.append(extra)
        res['tried'] = {}
        for pid in order[:10]:
            c, msg = check(pid, repo, nproc, root)
            res['tried'][pid] = c
            if c == 1: res.update(state='caught', by=pid, msg=msg); return res
        res['state'] = 'SURVIVED'
        return res
    except Exception as e:
        return dict(file=f, line=line, old=old, new=new, state='error', err=repr(e))
    finally:
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(root, ignore_errors=True)


def run(dir, out, seed, n, only=''):
    from concurrent.futures import ThreadPoolExecutor, as_completed
    ms = []
    cover = json.load(open('/tmp/cover.json')) if os.path.exists('/tmp/cover.json') else None
    for f in sorted(glob.glob(REPO + '/pdf2docx/**/*.py', recursive=True)):
        r = os.path.relpath(f, REPO)
        if 'gui' in r or r.endswith(('main.py', '__init__.py')) or not any(o in r for o in only.split(',')): continue
        for m in mutants(f):
            if cover and str(m[0]) not in cover.get(os.path.relpath(r, 'pdf2docx'), {}): continue
            ms.append((r,) + m)
    print(len(ms), 'mutants', flush=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d['file'], d['line'], d['old'], d['new']))
    rnd = random.Random(int(seed))
    ms = [m for m in rnd.sample(ms, min(int(n), len(ms))) if m[:4] not in done]
    base = observe(REPO, dir, 8)
    again = observe(REPO, dir, 8)
    base = {k: v for k, v in base.items() if again.get(k) == v}
    print(len(base), 'documents', flush=True)
    par, nproc = 8, 1
    with ThreadPoolExecutor(par) as ex:
        for fu in as_completed([ex.submit(one, m + (dir, base, nproc)) for m in ms]):
            r = fu.result()
            with open(out, 'a') as g: g.write(json.dumps(r) + '\n')
            print(r['state'], r['file'], r['line'], repr(r['old'])[:50], '->', repr(r['new'])[:50], r.get('by', ''), r.get('diff', ''), flush=True)


if __name__ == '__main__':
    c, a = sys.argv[1], sys.argv[2:]
    if c == 'corpus': corpus(*a)
    elif c == 'list': print(sum(len(mutants(f)) for f in a))
    else: run(*a)
