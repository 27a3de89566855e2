# -*- coding: utf-8 -*-
'''C13 stored layouts'''
import json
import os
import random
from .. import canon, conv
from .. import common as M
from .. import gen_doc as D
from ..core import Result
from .c12 import SETTINGS

TITLE = 'Parsed pages survive storing and restoring'
RULE = ('generated documents of every kind of page and sample files, whole or selected pages; parsed, stored (dict, JSON text, file) and restored into a fresh '
        'or an already used Converter, once and twice; docx, tables and the stored data itself are compared with the direct conversion; distinct by case')
NEED = {'restored': 60, 'pages': 100, 'tables': 8, 'images': 20}
CASE_LIMIT = 240


def cases(tier, rnd):
    k = 3 if tier == 'quick' else 20
    out = M.mixed(rnd, [(44 * k, {'kind': 'gen'}), (8 * k, {'kind': 'sample', 'index': 0})])
    for c in out:
        if c['kind'] == 'sample': c['index'] = rnd.randrange(23)
    return out


def differs(a, b, path=''):
    '''first difference of two stored layouts; regions may be rounded differently, that of a stroke is derived from its end points'''
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b): return '%s: %s' % (path, set(a) ^ set(b))
        for k in a:
            if k == 'bbox':
                if 'start' in a: continue
                if len(a[k]) != len(b[k]) or any(abs(x - y) > 3.0 for x, y in zip(a[k], b[k])): return '%s.bbox: %s instead of %s' % (path, b[k], a[k])
                continue
            m = differs(a[k], b[k], '%s.%s' % (path, k))
            if m: return m
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return '%s: %d items instead of %d' % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            m = differs(x, y, '%s[%d]' % (path, i))
            if m: return m
        return None
    return None if a == b else '%s: %r instead of %r' % (path, str(b)[:80], str(a)[:80])


def run(case):
    res, rnd = Result(), random.Random(case['seed'])
    from pdf2docx import Converter
    with conv.scratch() as d, conv.quiet() as log:
        if case['kind'] == 'gen':
            pdf, truth = D.build(rnd, rnd.choice((1, 2, 3, 4, 5, 7)))
            path = pdf.save(os.path.join(d, 'in.pdf'))
            what = [t.kind for t in truth]
        else:
            path = D.samples()[case['index'] % len(D.samples())]
            what = os.path.basename(path)
        docx = lambda cv, f: (cv.make_docx(os.path.join(d, f)), open(os.path.join(d, f), 'rb').read())[1]
        cv = Converter(path)
        n = len(cv)
        sel = sorted(rnd.sample(range(n), rnd.randint(1, n))) if rnd.random() < .4 else list(range(n))
        st = dict(rnd.choice(SETTINGS))
        cv.parse(sel, st)
        res.note = '%s, pages %s' % (what, sel)
        if 'gnore page' in log.getvalue(): res.bad('ignored', '%s: page given up' % res.note); return res
        s0 = cv.store()
        j0 = json.dumps(s0, sort_keys=True)
        d0 = json.loads(j0)
        if [p['id'] for p in s0['pages']] != sel: res.bad('ids', '%s: stored pages %s' % (res.note, [p['id'] for p in s0['pages']]))
        if s0['page_num'] != n: res.bad('ids', 'page_num %s of %d pages' % (s0['page_num'], n))
        tabs0 = [cv[i].extract_tables() for i in sel]
        a = docx(cv, 'a.docx')
        if json.dumps(cv.store(), sort_keys=True) != j0: res.bad('changed', '%s: creating the docx changes the stored layout' % res.note)
        f = os.path.join(d, 'layout.json')
        cv.serialize(f)
        if json.dumps(json.load(open(f)), sort_keys=True) != j0: res.bad('file', '%s: serialized file differs from store()' % res.note)
        if json.dumps(cv.store(), sort_keys=True) != j0: res.bad('changed', '%s: storing changes the layout' % res.note)
        ax, ar = canon.whole(a)
        res.count('images', a.count(b'word/media/') // 2)
        for k in range(2):
            way, target = rnd.choice(('dict', 'json', 'file')), rnd.choice(('fresh', 'fresh', 'used', 'self', 'other'))
            c2 = cv if target == 'self' else Converter(path)
            if target == 'used':
                c2.parse(sel)
                if rnd.random() < .5: docx(c2, 'u.docx')
            if target == 'other':
                # something else is parsed in between
                c3 = Converter(rnd.choice(D.samples()))
                c3.parse([0]); c3.close()
            if way == 'dict': c2.restore(cv.store() if target != 'self' else json.loads(j0))
            elif way == 'json': c2.restore(json.loads(j0))
            else: c2.deserialize(f)
            how = 'restored from %s into %s converter, %s' % (way, target, res.note)
            res.count('restored')
            m = differs(d0, json.loads(json.dumps(c2.store())))
            if m: res.bad('store', '%s: %s' % (how, m))
            if [c2[i].extract_tables() for i in sel] != tabs0: res.bad('tables', '%s: tables differ' % how)
            bx, br = canon.whole(docx(c2, 'b.docx'))
            m = canon.first_diff(ax, bx)
            if m: res.bad('docx', '%s: %s' % (how, m))
            if ar != br: res.bad('docx', '%s: other parts differ' % how)
            if c2 is not cv: c2.close()
        res.count('pages', len(sel)); res.count('tables', sum(len(t) for t in tabs0))
        cv.close()
        res.sig = [case['kind'], case['seed']]
    return res
