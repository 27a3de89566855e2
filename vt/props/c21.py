# -*- coding: utf-8 -*-
'''C21 command line'''
import json
import os
import random
import re
import subprocess
import sys
from .. import canon, conv, env
from .. import common as M
from .. import gen_doc as D
from ..core import Result

TITLE = 'The command line does what the API does'
RULE = ('real processes "pdf2docx convert/table/debug" with random files, page selections (--start, --end, --pages as number, list or tuple, one-based), settings, multi-processing, options in any order, '
        'before or behind the file names, in the forms --x=y and --x y; exit status, files and printed tables are compared with the API in another process; distinct by case')
NEED = {'convert': 60, 'table': 25, 'debug': 10, 'one_based': 20, 'single': 8, 'refused': 8, 'tables': 20}
CASE_LIMIT = 240
PROCS_PER_CASE = 1
SETTINGS = [('curve_path_ratio', (0.0, 0.9)), ('max_border_width', (1.0, 3.0)), ('clip_image_res_ratio', (1.0, 2.0)), ('page_margin_factor_top', (0.0, 1.0)), ('line_separate_threshold', (2.0, 30.0)),
            ('float_image_ignorable_gap', (0.0, 100.0)), ('lines_left_aligned_threshold', (0.1, 5.0)), ('shape_min_dimension', (0.5, 8.0))]
NAMES = ('in.pdf', 'two words.pdf', 'a.b.pdf', 'x', 'Z\u00fcrich.PDF', 'it\'s.pdf', '1.pdf', '2021-01.pdf', '[a].pdf', 'None.pdf')


def cases(tier, rnd):
    k = 5 if tier == 'quick' else 40
    return [dict(c, kind=q) for q, m in (('convert', 34), ('table', 16), ('debug', 8), ('refused', 6)) for c in M.seeds(rnd, m * k)]


def call(args, cwd):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    q = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cli.py')] + args,
                       cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    return q.returncode, q.stdout.decode('utf-8', 'replace'), q.stderr.decode('utf-8', 'replace')


def option(rnd, name, v):
    '''-> arguments of the command line'''
    if isinstance(v, (list, tuple)):
        s = ','.join(map(str, v))
        if len(v) == 1: s = rnd.choice((s, '[%s]' % s, '(%s,)' % s))
        else: s = rnd.choice((s, s, '[%s]' % s, '(%s)' % s))
    else: s = str(v)
    return ['--%s=%s' % (name, s)] if rnd.random() < .6 else ['--' + name, s]


def select(rnd, n, res):
    '''-> (options, pages of the document)'''
    r, base = rnd.random(), 0
    o = {}
    if rnd.random() < .4: base = 1
    if r < .2: want = list(range(n))
    elif r < .4:
        p = rnd.randrange(n)
        o['pages'], want = [p + base], [p]
        res.count('single')
    elif r < .6:
        p = rnd.sample(range(n), rnd.randint(1, n))
        o['pages'], want = [i + base for i in p], sorted(p)
        if len(p) == 1: res.count('single')
    else:
        a = rnd.randrange(n)
        b = rnd.randint(a + 1, n)
        if rnd.random() < .75: o['start'] = a + base
        else: a = 0
        if rnd.random() < .75: o['end'] = b + base
        else: b = n
        want = list(range(a, b))
    if base: o['zero_based_index'] = False; res.count('one_based')
    return o, want


def arguments(rnd, pos, opts):
    '''positional arguments and options, mixed'''
    o = [option(rnd, k, v) for k, v in opts.items()]
    rnd.shuffle(o)
    # positional ones all together: the rest is up to Fire
    i = rnd.choice((0, len(o), rnd.randint(0, len(o))))
    return sum(o[:i], []) + pos + sum(o[i:], [])


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    from pdf2docx import Converter
    env.load()
    with conv.scratch() as d:
        name = rnd.choice(NAMES)
        path = os.path.join(d, name)
        pdf, truth = D.build(rnd, rnd.choice((1, 2, 3, 4, 5)), ('table', 'stream', 'table', 'text', 'mixed') if kind == 'table' else D.KINDS)
        pdf.save(path)
        n = len(truth)
        o, want = select(rnd, n, res)
        st = {}
        for k, vs in rnd.sample(SETTINGS, rnd.choice((0, 0, 1, 2))): st[k] = rnd.choice(vs)
        ref = os.path.join(d, 'reference.docx')
        what = '%s %s %s' % (kind, o, st)
        res.sig, res.note = [kind, case['seed']], what
        res.count(kind)
        if kind == 'refused':
            bad = rnd.choice(('missing', 'nopdf', 'range', 'command', 'argument'))
            docx = os.path.join(d, 'out.docx')
            if bad == 'missing': args = ['convert', 'not there.pdf', docx]
            elif bad == 'nopdf':
                open(path, 'w').write('text')
                args = ['convert', path, docx]
            elif bad == 'range': args = ['convert', path, docx, '--pages=%d' % (n + 3)]
            elif bad == 'command': args = ['konvert', path, docx]
            else: args = ['convert']
            rc, out, err = call(args, d)
            if rc == 0: res.bad('accepted', '%s: exit status 0' % args)
            if os.path.exists(docx): res.bad('written', '%s: there is a docx' % args)
            return res
        if kind == 'convert':
            with conv.quiet() as log:
                try:
                    cv = Converter(path); cv.convert(ref, pages=want, kwargs=dict(st)); cv.close()
                except Exception as e: res.inc = 'API: %r' % e; return res
            if rnd.random() < .3: st['multi_processing'] = True; st['cpu_count'] = rnd.choice((1, 2, 3)); res.count('mp')
            docx = os.path.join(d, 'out put.docx')
            pos = [path if rnd.random() < .5 else name]
            if rnd.random() < .75: pos.append(docx if rnd.random() < .5 else 'out put.docx')
            else: docx = os.path.splitext(path)[0] + '.docx'; res.count('default name')
            args = ['convert'] + arguments(rnd, pos, {**o, **st})
            rc, out, err = call(args, d)
            if rc != 0 or not os.path.exists(docx): res.bad('failed', '%s: exit status %s: %s' % (args, rc, err[-300:])); return res
            m = canon.first_diff(canon.sections(open(ref, 'rb').read()), canon.sections(open(docx, 'rb').read()))
            if m: res.bad('differs', '%s: %s' % (args, m))
        elif kind == 'table':
            if rnd.random() < .4: st['extract_stream_table'] = True
            with conv.quiet() as log:
                cv = Converter(path); exp = cv.extract_tables(pages=want, kwargs=dict(st)); cv.close()
            args = ['table'] + arguments(rnd, [path if rnd.random() < .5 else name], {**o, **st})
            rc, out, err = call(args, d)
            if rc != 0: res.bad('failed', '%s: exit status %s: %s' % (args, rc, err[-300:])); return res
            # progress is printed before, without new line
            s = re.sub(r'^Parsing Page \d+: \d+/\d+\.\.\.', '', out.split('\r')[-1] if '\r' in out else out)
            try: got = [json.loads(l) for l in s.split('\n') if l.strip()]
            except ValueError: res.bad('printed', '%s: prints %r' % (args, s[:300])); return res
            res.count('tables', len(exp))
            if got != exp: res.bad('tables', '%s: %d tables printed, %d expected: %r' % (args, len(got), len(exp), M.diff(exp, got)))
        else:
            i = rnd.randrange(n)
            base = 1 if rnd.random() < .4 else 0
            with conv.quiet() as log:
                cv = Converter(path); cv.convert(ref, pages=[i], kwargs=dict(st)); cv.close()
            docx, dbg, lay = (os.path.join(d, x) for x in ('out.docx', 'dbg.pdf', 'lay.json'))
            opts = dict(st)
            if base: opts['zero_based_index'] = False
            args = ['debug'] + arguments(rnd, [path, str(i + base), docx, dbg, lay], opts)
            rc, out, err = call(args, d)
            if rc != 0: res.bad('failed', '%s: exit status %s: %s' % (args, rc, err[-300:])); return res
            for f in (docx, dbg, lay):
                if not os.path.exists(f): res.bad('missing', '%s: %s not written' % (args, os.path.basename(f))); return res
            m = canon.first_diff(canon.sections(open(ref, 'rb').read()), canon.sections(open(docx, 'rb').read()))
            if m: res.bad('differs', '%s: %s' % (args, m))
            if [q['id'] for q in json.load(open(lay))['pages']] != [i]: res.bad('page', '%s: layout of other pages' % args)
    return res
