# -*- coding: utf-8 -*-
'''C22 debug mode'''
import json
import os
import random
import re
from .. import canon, conv
from .. import common as M
from .. import gen_doc as D
from ..core import Result
from .c12 import SETTINGS

TITLE = 'Debug mode shows the layout and changes nothing'
RULE = ('generated documents of every kind of page and sample files; debug_page for random pages and settings, before, after and between other conversions with the same Converter and the same dictionary of '
        'settings; docx and stored layout compared with those without debugging, every line and cell of the stored layout looked up in the drawing, settings compared with before; distinct by case')
NEED = {'debugged': 60, 'rects': 1500, 'cells': 150, 'again': 20}
CASE_LIMIT = 240
TITLES = ('Source Paths', 'Source Text Blocks', 'Cleaned Shapes', 'Final Layout')


def cases(tier, rnd):
    k = 3 if tier == 'quick' else 20
    out = M.mixed(rnd, [(60 * k, {'kind': 'gen'}), (12 * k, {'kind': 'sample', 'index': 0})])
    for c in out:
        if c['kind'] == 'sample': c['index'] = rnd.randrange(23)
    return out


def shown(blocks, out):
    '''regions of the stored layout which are to be drawn: lines, cells of tables (floating pictures aren't)'''
    for b in blocks or ():
        if 'lines' in b:
            for l in b['lines']: out.append(('line', l['bbox']))
        elif 'rows' in b:
            for r in b['rows']:
                for c in r['cells']:
                    if not c or not c.get('merged_cells') or 0 in c['merged_cells']: continue
                    out.append(('cell', c['bbox']))
    return out


def run(case):
    res, rnd = Result(), random.Random(case['seed'])
    import fitz
    from pdf2docx import Converter
    with conv.scratch() as d:
        if case['kind'] == 'gen':
            pdf, truth = D.build(rnd, rnd.choice((1, 2, 3, 4)))
            path = pdf.save(os.path.join(d, 'in.pdf'))
            what = [t.kind for t in truth]
        else:
            path = D.samples()[case['index'] % len(D.samples())]
            what = os.path.basename(path)
        f = lambda x: os.path.join(d, x)
        st0 = dict(rnd.choice(SETTINGS))
        res.sig = [case['kind'], case.get('index', case['seed'])]
        with conv.quiet() as log:
            cv = Converter(path)
            n = len(cv)
            user = dict(st0)
            picks = [rnd.randrange(n) for _ in range(rnd.choice((1, 1, 2, 3)))]
            if rnd.random() < .5: cv.convert(f('before.docx'), kwargs=user)
            for k, i in enumerate(picks):
                note = '%s, page %d, settings %s, call %d' % (what, i, st0, k)
                res.note = note
                c2 = Converter(path)
                c2.convert(f('plain.docx'), pages=[i], kwargs=dict(st0))
                plain = json.loads(json.dumps(c2.store()))
                c2.close()
                if 'gnore page' in log.getvalue(): res.bad('ignored', '%s: page given up without debugging' % note); return res
                docx, dbg, lay = f('d%d.docx' % k), f('d%d.pdf' % k), f('d%d.json' % k)
                try: cv.debug_page(i, docx, dbg, lay, user)
                except Exception as e: res.bad('error', '%s: %r' % (note, e)); return res
                if 'gnore page' in log.getvalue(): res.bad('ignored', '%s: page given up' % note); return res
                res.count('debugged')
                if k: res.count('again')
                if user != st0: res.bad('settings', '%s: settings of the caller are changed: %s' % (note, sorted(set(user) ^ set(st0)))); user = dict(st0)
                m = canon.first_diff(canon.sections(open(f('plain.docx'), 'rb').read()), canon.sections(open(docx, 'rb').read()))
                if m: res.bad('docx', '%s: %s' % (note, m))
                got = json.load(open(lay))
                if got != plain: res.bad('layout', '%s: stored layout differs' % note)
                drawing(res, note, dbg, plain['pages'][0])
                old = open(dbg, 'rb').read() if os.path.exists(dbg) else None
                if rnd.random() < .5:
                    # later conversions are as usual
                    cv.convert(f('after.docx'), pages=[i], kwargs=user)
                    m = canon.first_diff(canon.sections(open(f('plain.docx'), 'rb').read()), canon.sections(open(f('after.docx'), 'rb').read()))
                    if m: res.bad('after', '%s: conversion after debugging: %s' % (note, m))
                    if old is not None and open(dbg, 'rb').read() != old: res.bad('after', '%s: conversion after debugging changes the drawing' % note)
                    res.count('after')
            cv.close()
    return res


def drawing(res, note, dbg, page):
    import fitz
    want = shown(page['blocks'], [])
    if not os.path.exists(dbg):
        if want: res.bad('nodrawing', '%s: no drawing' % note)
        return
    doc = fitz.open(dbg)
    titles = []
    for q in doc:
        if abs(q.rect.width - page['width']) > .5 or abs(q.rect.height - page['height']) > .5: res.bad('size', '%s: drawing of %s for a page of %.1f x %.1f' % (note, q.rect, page['width'], page['height']))
        t = [t for t in TITLES if t in q.get_text()]
        if not t: res.bad('title', '%s: page without title: %r' % (note, q.get_text()[:60]))
        titles += t[:1]
    if titles != [t for t in TITLES if t in titles]: res.bad('title', '%s: pages %s' % (note, titles))
    if not want: return
    if not titles or titles[-1] != 'Final Layout': res.bad('title', '%s: pages %s' % (note, titles)); return
    rects = []
    for g in doc[-1].get_drawings():
        for it in g['items']:
            if it[0] == 're': rects.append(tuple(it[1]))
            elif it[0] == 'qu': rects.append(tuple(it[1].rect))
        rects.append(tuple(g['rect']))
    for kind, b in want:
        res.count('rects'); res.count(kind + 's')
        if not any(all(abs(x - y) < .6 for x, y in zip(r, b)) for r in rects):
            res.bad('notdrawn', '%s: %s at %s is not drawn' % (note, kind, [round(v, 1) for v in b])); break
    doc.close()
