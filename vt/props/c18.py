# -*- coding: utf-8 -*-
'''C18 encodings'''
import os
import random
import fitz
from .. import canon, conv, near, pdfw
from .. import common as M
from .. import gen_doc as D
from ..core import Result

TITLE = 'How a page is encoded makes no difference'
RULE = ('generated documents of every kind of page, written twice: plainly, and with other rotation, origin, boxes, coordinate system, operators, streams, filters, page tree, object '
        'streams, encryption; and sample files rewritten by PyMuPDF; the sections of both docx files compared (up to rounding; content only for pages turned by 90 or 270 degrees); distinct by case')
NEED = {'same': 120, 'turned': 40, 'samples': 12}
CASE_LIMIT = 240
TOL = .45


def cases(tier, rnd):
    k = 4 if tier == 'quick' else 25
    out = M.mixed(rnd, [(90 * k, {'kind': 'same'}), (36 * k, {'kind': 'turned'}), (16 * k if tier == 'quick' else 60, {'kind': 'sample'})])
    for c in out:
        if c['kind'] != 'sample':
            e = {}
            while not e: e = M.encoding(rnd, (180,) if c['kind'] == 'same' else (90, 270))
            if c['kind'] == 'turned': e['rot'] = rnd.choice((90, 270))
            c['variant'] = e
        else: c['variant'] = rnd.choice(({'garbage': 4, 'deflate': True}, {'garbage': 3}, {'linear': True}, {'encryption': 5, 'owner_pw': 'own', 'user_pw': ''}, {'ascii': True, 'deflate': True},
                                         {'encryption': 2, 'owner_pw': 'own', 'user_pw': ''}, {'expand': 255}, {'pretty': True}))
    return out


def run(case):
    res, kind = Result(), case['kind']
    res.sig = [kind, case['seed']]
    if kind == 'sample':
        fs = D.samples()
        f = fs[case['seed'] % len(fs)]
        with open(f, 'rb') as g: a = g.read()
        d = fitz.open('pdf', a)
        b = d.tobytes(**case['variant'])
        d.close()
        what = os.path.basename(f)
        res.count('samples')
    else:
        pdfw.ENC.clear()
        pdf, truth = D.build(random.Random(case['seed']), random.Random(case['seed'] + 1).choice((1, 1, 2, 3)), rot=0)
        a = pdf.tobytes()
        pdfw.ENC.update(case['variant'])
        pdf, truth = D.build(random.Random(case['seed']), random.Random(case['seed'] + 1).choice((1, 1, 2, 3)), rot=0)
        b = pdf.tobytes()
        pdfw.ENC.clear()
        what = str([t.kind for t in truth])
    res.note = '%s %s: %s' % (kind, what, case['variant'])
    A = M.convert(res, a, None, what)
    B = M.convert(res, b, None, what)
    if A is None or B is None: return res
    p, q = A.docx.sections, B.docx.sections
    if len(p) != len(q):
        res.bad('pages', '%s: %d and %d sections (%r)' % (what, len(p), len(q), case['variant']))
        return res
    if kind in ('sample', 'same'):
        # rendered pictures differ in single pixels
        for i, (x, y) in enumerate(zip(canon.sections(A.data), canon.sections(B.data))):
            res.count('same' if kind == 'same' else 'sample pages')
            d = near.difference(x, y, TOL if kind == 'same' else 0.0, ('embed',) if kind == 'same' and truth[i].kind in ('vector', 'mixed', 'shared') else ())
            if d: res.bad(kind, 'section %d of %s encoded as %r: %s' % (i, what, case['variant'], d[-300:]))
    else:
        for i, (x, y) in enumerate(zip(p, q)):
            res.count('turned')
            (c, u), (e, v) = near.summary(x), near.summary(y)
            if c != e: res.bad('chars', 'section %d of %s encoded as %r: characters %s, %s' % (i, what, case['variant'], M.show(dict(c - e), 3), M.show(dict(e - c), 3)))
            if len(x.tables) and truth[i].kind == 'table':
                f = lambda s: [(t.structure(), [c.shd for c in t.cells]) for t in s.tables]
                if f(x) != f(y): res.bad('tables', 'section %d of %s encoded as %r: tables %s, %s' % (i, what, case['variant'], str(f(x))[:200], str(f(y))[:200]))
            if sum(u.values()) != sum(v.values()): res.bad('pictures', 'section %d of %s encoded as %r: pictures %s, %s' % (i, what, case['variant'], dict(u), dict(v)))
            for m in ('w', 'h', 'left', 'right', 'top', 'bottom'):
                if abs(getattr(x, m) - getattr(y, m)) > 2.0: res.bad('size', 'section %d of %s encoded as %r: %s %.2f, %.2f' % (i, what, case['variant'], m, getattr(x, m), getattr(y, m)))
    return res
