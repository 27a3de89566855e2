# -*- coding: utf-8 -*-
'''Runs the cases of a property in isolated processes and turns what the monitors saw into a verdict.

A property module (vt/props/<id>.py) provides

    TITLE, RULE       strings for the evidence file
    cases(tier, rnd)  list of JSON-able case descriptors, a function of the tier and the seed only
    run(case)         -> Result: what the monitors observed on the real code

Three verdicts: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 3: the monitors
did not see enough - a worker that dies or times out never counts as held nor as a violation).
'''
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known_findings.json')
NPROC = int(os.environ.get('VT_NPROC', '8'))


class Result:
    def __init__(self):
        self.viol = []      # (mechanism key, message)
        self.n = {}         # counters of observed events
        self.sig = None     # what makes the case distinct (None: trivial)
        self.inc = None     # reason why nothing could be decided
        self.note = None    # short description of the case, for the samples of the evidence

    def count(self, key, k=1): self.n[key] = self.n.get(key, 0) + k

    def bad(self, key, msg): self.viol.append((key, str(msg)[:2000]))

    def dump(self): return {'viol': self.viol, 'n': self.n, 'sig': self.sig, 'inc': self.inc, 'note': self.note}


class Timeout(BaseException):
    pass


def load(pid): return importlib.import_module('vt.props.%s' % pid.lower())


def findings(pid):
    with open(FINDINGS) as f: data = json.load(f)
    return [e for e in data['findings'] if e['property'] == pid]


def run_case(mod, case, limit):
    def alarm(*_): raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        from . import pdfw
        pdfw.ENC.clear()
        pdfw.ENC.update(case.get('enc') or {})
        res = mod.run(case)
        if case.get('enc'): res.count('other encodings')
    except Timeout:
        res = Result(); res.inc = 'timeout'
    except Exception:
        res = Result(); res.inc = 'harness error: ' + traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    return res.dump()


def _child(mod, batch, path, limit):
    '''Runs a batch of (index, case) and appends one JSON line per case.'''
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1); os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w'); sys.stderr = open(os.devnull, 'w')
    with open(path, 'w') as f:
        for i, case in batch:
            f.write(json.dumps({'start': i}) + '\n'); f.flush()
            f.write(json.dumps({'i': i, 'r': run_case(mod, case, limit)}) + '\n'); f.flush()
    os._exit(0)


def execute(mod, cases, budget, limit, stop_on=None):
    '''All cases in forked workers.  Returns {index: result}.'''
    out, t0 = {}, time.time()
    todo = list(enumerate(cases))
    size = max(1, min(getattr(mod, 'BATCH', 8), len(todo) // (2 * NPROC) or 1))
    batches = [todo[i:i + size] for i in range(0, len(todo), size)]
    batches.reverse()
    live, tmp = {}, tempfile.mkdtemp(prefix='vt-run-')
    os.environ['VT_SCRATCH'] = tmp
    from . import conv
    conv.SCRATCH = tmp
    k = 0
    nproc = max(1, NPROC // getattr(mod, 'PROCS_PER_CASE', 1))
    try:
        while batches or live:
            while batches and len(live) < nproc and time.time() - t0 < budget:
                b, k = batches.pop(), k + 1
                path = os.path.join(tmp, 'res-%d' % k)
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        _child(mod, b, path, limit)
                    finally:
                        os._exit(17)
                live[pid] = (b, path, time.time())
            if not live: break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (b, path, ts) in list(live.items()):
                    if now - ts > limit * len(b) + 30 or now - t0 > budget + 2 * limit:
                        try: os.killpg(p, signal.SIGKILL)
                        except OSError:
                            try: os.kill(p, signal.SIGKILL)
                            except OSError: pass
                time.sleep(0.01)
                continue
            if pid not in live: continue
            b, path, _ = live.pop(pid)
            try: os.killpg(pid, signal.SIGKILL)   # whatever the case left running
            except OSError: pass
            started, done = None, set()
            if os.path.exists(path):
                with open(path) as f:
                    for line in f:
                        try: d = json.loads(line)
                        except ValueError: continue
                        if 'start' in d: started = d['start']
                        else:
                            out[d['i']] = d['r']; done.add(d['i'])
                os.unlink(path)
            rest = [x for x in b if x[0] not in done]
            if rest and started is not None and rest[0][0] == started:
                r = Result(); r.inc = 'worker died (status %d)' % status
                out[started] = r.dump()
                rest = rest[1:]
            elif rest and started is None:
                for i, _ in rest:
                    r = Result(); r.inc = 'worker died before the case (status %d)' % status
                    out[i] = r.dump()
                rest = []
            if rest: batches.append(rest)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--case', help='run a single case (JSON) in this process and print the result')
    ap.add_argument('--limit', type=int, default=0, help='only the first N cases')
    a = ap.parse_args(argv)
    pid, t0 = a.property.upper(), time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import env
    env.load()
    mod = load(pid)

    if a.replay or a.case:
        case = json.load(open(a.replay))['case'] if a.replay else json.loads(a.case)
        r = run_case(mod, case, 600)
        print(json.dumps(r, indent=1, ensure_ascii=False)[:20000])
        sys.stdout.flush()
        os._exit(1 if r['viol'] else 0)

    rnd = random.Random('%s:%d' % (pid, seed))
    cases = mod.cases(a.tier, rnd)
    if a.limit: cases = cases[:a.limit]
    known = findings(pid)
    nk = len(known)
    # the listed findings are reproduced on every run
    cases = [k['case'] for k in known if k.get('case')] + cases
    budget = getattr(mod, 'BUDGET', {}).get(a.tier) or (240 if a.tier == 'quick' else 2400)
    limit = getattr(mod, 'CASE_LIMIT', 120)
    out = execute(mod, cases, budget, limit)

    keys = {k['key']: k for k in known}
    counters, sigs, inc, viol, seen, samples = {}, set(), [], {}, {}, []
    for i in sorted(out):
        r = out[i]
        for k, v in r['n'].items(): counters[k] = counters.get(k, 0) + v
        if r['inc']: inc.append((i, r['inc'])); continue
        if r['sig'] is not None: sigs.add(json.dumps(r['sig'], sort_keys=True))
        if len(samples) < 5 and r['note'] and i >= nk: samples.append({'case': cases[i], 'observed': r['note']})
        for key, msg in r['viol']:
            if key in keys: seen.setdefault(key, (i, msg))
            else: viol.setdefault(key, []).append((i, msg))
    for e in known:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, e['what'], '' if e['key'] in seen else ' (not reproduced on this run)'))
    total = 0
    for key in sorted(viol):
        i, msg = viol[key][0]
        total += len(viol[key])
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps([cases[i], key], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (pid, h))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'key': key, 'message': msg, 'case': cases[i], 'seed': seed, 'tier': a.tier,
                       'replay': '/opt/venv/bin/python /verif/check.py %s --replay %s' % (pid, path)}, f, indent=1, ensure_ascii=False)
        print('  [%s] x%d: %s' % (key, len(viol[key]), msg[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    done = len(out) - len(inc)
    wall = time.time() - t0
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE + ('; a part of the cases with another encoding of the pages (rotation, origin, boxes, coordinate system, operators, streams, filters, file structure)' if counters.get('other encodings') else ''),
                       'samples': samples, 'observed': counters, 'planned': len(cases), 'inconclusive': len(inc),
                       'inconclusive_reasons': [x for _, x in inc[:3]]},
          'assumptions': getattr(mod, 'ASSUME', []), 'violations': total, 'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    for i, x in inc[:3]: print('inconclusive case %s: %s' % (json.dumps(cases[i])[:200], x[-600:]))
    need = getattr(mod, 'NEED', {})
    short = ['%s=%d<%d' % (k, counters.get(k, 0), v) for k, v in need.items() if counters.get(k, 0) < v] if not a.limit else []
    print('%s %s seed=%d: %d/%d cases decided, %d distinct, %d inconclusive, %.1fs; %s' % (
        pid, a.tier, seed, done, len(cases), len(sigs), len(inc), wall,
        ' '.join('%s=%d' % kv for kv in sorted(counters.items()))))
    if viol: code = 1
    elif done < 0.6 * len(cases) or short or not sigs:
        print('INCONCLUSIVE: %s' % (', '.join(short) or 'too few cases decided'))
        code = 3
    else: code = 0
    sys.stdout.flush()
    os._exit(code)
