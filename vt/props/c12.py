# -*- coding: utf-8 -*-
'''C12 multi-processing gives the serial result'''
import contextlib
import os
import random
from .. import canon, conv, hostile
from .. import common as M
from .. import gen_doc as D
from ..core import Result

TITLE = 'Multi-processing writes the same docx as serial conversion'
RULE = ('generated documents of 1-17 pages of every kind and sample files, whole or with selected pages and random settings, converted serially and with '
        'processes slowed down at random, two conversions at the same time, further conversions with the same Converter; '
        'multi_processing for random cpu_count (1, less than, equal to and more than the pages); all parts of the two docx files are compared; distinct by case')
NEED = {'delayed': 20, 'out of order': 8, 'again': 30, 'pairs': 5, 'compared': 40, 'sections': 120, 'images': 10}
CASE_LIMIT = 240
PROCS_PER_CASE = 2


def cases(tier, rnd):
    k = 3 if tier == 'quick' else 14
    out = M.mixed(rnd, [(34 * k, {'kind': 'gen'}), (8 * k, {'kind': 'sample', 'index': 0}), (4 * k, {'kind': 'pair'})])
    for c in out:
        if c['kind'] == 'sample': c['index'] = rnd.randrange(23)
    return out


SETTINGS = [{}, {}, {}, {'page_margin_factor_top': 1.0}, {'clip_image_res_ratio': 1.5}, {'float_layout_tolerance': 0.0}, {'line_separate_threshold': 20.0},
            {'lines_left_aligned_threshold': 4.0, 'max_border_width': 2.0}, {'curve_path_ratio': 0.9}, {'page_margin_factor_bottom': 0.1, 'shape_min_dimension': 5.0}]


def pair(case):
    '''two conversions at the same time, of files in the same folder'''
    res, rnd = Result(), random.Random(case['seed'])
    from pdf2docx import Converter
    with conv.scratch() as d:
        jobs = []
        for i in range(2):
            pdf, truth = D.build(rnd, rnd.choice((2, 3, 4, 6)))
            path = pdf.save(os.path.join(d, 'in%d.pdf' % i))
            a = os.path.join(d, 'a%d.docx' % i)
            with conv.quiet() as log:
                cv = Converter(path)
                cv.convert(a)
                cv.close()
            jobs.append((path, a, os.path.join(d, 'b%d.docx' % i), rnd.choice((2, 2, 3, 8))))
        pids = []
        for path, a, b, cpu in jobs:
            pid = os.fork()
            if pid == 0:
                try:
                    with conv.quiet(), hostile.slow(os.path.join(d, 'events'), case['seed']):
                        cv = Converter(path)
                        cv.convert(b, kwargs={'multi_processing': True, 'cpu_count': cpu})
                finally: os._exit(0)
            pids.append(pid)
        for pid in pids: os.waitpid(pid, 0)
        for i, (path, a, b, cpu) in enumerate(jobs):
            if not os.path.exists(b): res.bad('pair', 'conversion %d of two at the same time wrote no docx' % i)
            else: compare(res, a, b, 'two conversions at the same time, cpu_count=%d' % cpu)
        res.count('pairs')
        res.sig = ['pair', case['seed']]
    return res


def run(case):
    if case['kind'] == 'pair': return pair(case)
    res, rnd = Result(), random.Random(case['seed'])
    from pdf2docx import Converter, parse
    with conv.scratch() as d:
        if case['kind'] == 'gen':
            pdf, truth = D.build(rnd, rnd.choice((1, 2, 3, 4, 5, 7, 8, 9, 12, 17)))
            path = pdf.save(os.path.join(d, 'in.pdf'))
            what = [t.kind for t in truth]
        else:
            path = D.samples()[case['index'] % len(D.samples())]
            what = os.path.basename(path)
        a, b = os.path.join(d, 'a.docx'), os.path.join(d, 'b.docx')
        with conv.quiet() as log:
            cv = Converter(path)
            n = len(cv)
        kw, st = {}, dict(rnd.choice(SETTINGS))
        r = rnd.random()
        if r < .25: kw = {'pages': [rnd.randrange(n) for _ in range(rnd.randint(1, n + 1))]}
        elif r < .4:
            kw = {'start': rnd.randrange(n)}
            kw['end'] = rnd.randint(kw['start'] + 1, n)
        cpu = rnd.choice((None, 1, 2, 3, 5, 8, n, n + 1, 64))
        mp = dict(st, multi_processing=True)
        if cpu: mp['cpu_count'] = cpu
        res.note = '%s, %s, %s cpu_count=%s' % (what, kw, st, cpu)
        how = rnd.choice(('same', 'fresh', 'parse'))
        with conv.quiet() as log:
            try: cv.convert(a, kwargs=dict(st), **kw)
            except Exception as e: res.bad('error', 'serial: %r' % e); return res
            if 'gnore page' in log.getvalue(): res.bad('ignored', 'serial: page given up'); return res
        delays = hostile.slow(os.path.join(d, 'events'), case['seed']) if rnd.random() < .5 else contextlib.nullcontext()
        with conv.quiet() as log:
            try:
                with delays as events:
                    if how == 'same': cv.convert(b, kwargs=mp, **kw)
                    elif how == 'fresh':
                        c2 = Converter(path)
                        c2.convert(b, kwargs=mp, **kw)
                        c2.close()
                    else: parse(path, b, **kw, **mp)
                    if events:
                        # the order in which the processes finish their parts
                        ev = [(p, os.path.basename(f)) for p, f in events()]
                        res.count('delayed')
                        res.count('writers', len({p for p, _ in ev}))
                        names = [f for _, f in ev]
                        if len(names) > 1 and names != sorted(names): res.count('out of order')
            except Exception as e: res.bad('error', 'multi-processing (%s): %r' % (res.note, e)); return res
        if 'gnore page' in log.getvalue(): res.bad('ignored', 'multi-processing: page given up')
        if not os.path.exists(b): res.bad('nodocx', 'multi-processing wrote no docx (%s)' % res.note); return res
        compare(res, a, b, res.note)
        # and whatever follows
        for _ in range(2):
            if rnd.random() < .5: continue
            sel = rnd.sample(range(n), rnd.randint(1, n))
            multi = rnd.random() < .6
            with conv.quiet() as log:
                try:
                    c2 = Converter(path)
                    c2.convert(a, pages=sel, kwargs=dict(st))
                    c2.close()
                    cv.convert(b, pages=sel, kwargs=dict(mp) if multi else dict(st))
                except Exception as e: res.bad('error', 'again (%s): %r' % (res.note, e)); return res
            compare(res, a, b, '%s, again with pages %s%s by the same Converter' % (res.note, sel, ', in processes' if multi else ''))
            res.count('again')
        with conv.quiet(): cv.close()
        res.sig = [case['kind'], case['seed']]
    return res


def compare(res, a, b, what):
    x, y = open(a, 'rb').read(), open(b, 'rb').read()
    (xs, xr), (ys, yr) = canon.whole(x), canon.whole(y)
    res.count('compared'); res.count('sections', len(xs)); res.count('images', x.count(b'word/media/') // 2)
    m = canon.first_diff(xs, ys)
    if m: res.bad('differs', '%s: %s' % (what, m))
    if xr != yr: res.bad('parts', '%s: other parts differ: %s' % (what, set(xr.items()) ^ set(yr.items())))
