# -*- coding: utf-8 -*-
'''C16 determinism'''
import os
import random
import subprocess
import sys
import fitz
from .. import hostile, canon, conv, env
from .. import common as M
from .. import gen_doc as D
from ..core import Result

TITLE = 'The docx depends on the page and the settings only'
RULE = ('generated documents of every kind of page and sample files; converted after random histories of other conversions, settings, table extractions, restored '
        'layouts and failed calls in one process, in new processes with other hash seeds and other working directories, and page by page (each page cut out to a file of its own); all parts of the docx '
        'files are compared; distinct by case')
NEED = {'history': 60, 'process': 12, 'single': 40}
CASE_LIMIT = 240

CHILD = '''
import sys, os
sys.path.insert(0, sys.argv[1])
from vt import env
env.load()
from pdf2docx import Converter
sys.stdout = open(os.devnull, 'w')
c = Converter(sys.argv[2]); c.convert(sys.argv[3]); c.close()
os._exit(0)
'''


def cases(tier, rnd):
    k = 2 if tier == 'quick' else 16
    out = M.mixed(rnd, [(20 * k, {'kind': 'history'}), (10 * k, {'kind': 'process'}), (24 * k, {'kind': 'single'})])
    for c in out: c['sample'] = rnd.randrange(23) if rnd.random() < .2 else None
    return out


def doc(case, rnd, d, n=None):
    if case['sample'] is not None:
        f = D.samples()[case['sample'] % len(D.samples())]
        return f, os.path.basename(f)
    pdf, truth = D.build(rnd, n or rnd.choice((1, 2, 3, 4, 6)))
    return pdf.save(os.path.join(d, 'in.pdf')), [t.kind for t in truth]


def step(rnd, d, path, used=None):
    '''something else happening in this process'''
    from pdf2docx import Converter
    r = rnd.random()
    if r < .4:
        pdf, _ = D.build(rnd, rnd.randint(1, 2), rot=.5)
        f = pdf.save(os.path.join(d, 'other.pdf'))
    elif r < .5: f = rnd.choice(D.samples())
    else: f = path
    st = rnd.choice(({}, {'debug': False}, {'extract_stream_table': True}, {'max_border_width': .1}, {'curve_path_ratio': 0}, {'line_overlap_threshold': .1},
                     {'float_image_ignorable_gap': 0}, {'clip_image_res_ratio': 1.0},
                     {'page_margin_factor_top': 1.0, 'page_margin_factor_bottom': 0}, {'line_separate_threshold': 30, 'line_merging_threshold': 20}, {'shape_min_dimension': 40}))
    if f == path and used: cv = used
    else: cv = Converter(f)
    k = rnd.randrange(6)
    if k == 0: cv.convert(os.path.join(d, 'x.docx'), kwargs=st)
    elif k == 1: cv.extract_tables(kwargs=st)
    elif k == 2: cv.parse([rnd.randrange(len(cv))], st)
    elif k == 3:
        cv.parse(None, st)
        c2 = Converter(f)
        c2.restore(cv.store())
        c2.close()
    elif k == 4:
        try: Converter(os.path.join(d, 'missing.pdf'))
        except Exception: pass
    else:
        try: cv.make_docx(os.path.join(d, 'x.docx'))     # nothing parsed: refused
        except Exception: pass
    if rnd.random() < .5 and cv is not used: cv.close()
    return '%d%s on %s' % (k, ' (same converter, %s)' % st if cv is used else '', os.path.basename(f))


def run(case):
    res, rnd = Result(), random.Random(case['seed'])
    from pdf2docx import Converter
    with conv.scratch() as d, conv.quiet() as log:
        path, what = doc(case, rnd, d)
        out = os.path.join(d, 'a.docx')
        cv = Converter(path)
        cv.convert(out)
        if 'gnore page' in log.getvalue(): res.bad('ignored', '%s: page given up' % what); return res
        ref = open(out, 'rb').read()
        rx = canon.whole(ref)
        res.note = str(what)
        res.sig = [case['kind'], case['seed'], case['sample']]

        def compare(data, how, key):
            x = canon.whole(data)
            m = canon.first_diff(rx[0], x[0])
            if m: res.bad(key, '%s, %s: %s' % (what, how, m))
            if x[1] != rx[1]: res.bad(key, '%s, %s: other parts differ' % (what, how))
        if case['kind'] == 'history':
            done = []
            for _ in range(4):
                # with this converter, too
                using = rnd.random() < .5
                done.append(step(rnd, d, path, cv if using else None))
                # again, with the same or a new converter
                same = rnd.random() < (.7 if using else .4)
                c2 = cv if same else Converter(path)
                c2.convert(out)
                res.count('history')
                compare(open(out, 'rb').read(), 'after %s with %s converter' % (done, 'the same' if same else 'a new'), 'history')
                if not same: c2.close()
            for k in range(2):
                with hostile.identities(seed=case['seed'] + k) as again:
                    c2 = Converter(path)
                    c2.convert(out)
                    c2.close()
                res.count('identities', again[0])
                compare(open(out, 'rb').read(), 'with memory addresses used again at once', 'memory')
        elif case['kind'] == 'process':
            for hs in ('1', '77'):
                e = dict(os.environ, PYTHONHASHSEED=hs)
                f = os.path.join(d, 'p%s.docx' % hs)
                root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
                cwd = d if hs == '1' else '/'
                q = subprocess.run([sys.executable, '-c', CHILD, root, path, f], env=e, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                if q.returncode != 0 or not os.path.exists(f): res.bad('process', '%s: conversion in a new process failed (%d)' % (what, q.returncode)); continue
                res.count('process')
                compare(open(f, 'rb').read(), 'in a new process with hash seed %s' % hs, 'process')
        else:
            secs = canon.sections(ref)
            src = fitz.open(path)
            for i in range(len(src)):
                one = os.path.join(d, 'one%d.pdf' % i)
                n = fitz.open()
                n.insert_pdf(src, from_page=i, to_page=i, links=True, annots=True)
                n.save(one); n.close()
                dst = fitz.open(one)
                uri = lambda pg: [(l.get('uri'), [round(v) for v in l['from']]) for l in pg.get_links()]
                same = uri(dst[0]) == uri(src[i]) and dst[0].get_text() == src[i].get_text()
                dst.close()
                if not same: continue
                c2 = Converter(one)
                c2.convert(out)
                c2.close()
                got = canon.sections(open(out, 'rb').read())
                res.count('single')
                m = canon.first_diff([secs[i]], got)
                if m: res.bad('single', '%s, page %d converted on its own: %s' % (what, i, m))
            src.close()
        cv.close()
    return res
