# -*- coding: utf-8 -*-
'''C17 the docx is a valid package'''
import io
import os
import random
from .. import conv, schema
from .. import common as M
from .. import gen_doc as D
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf
from . import c04, c05, c08, c14

TITLE = 'Every docx is a valid WordprocessingML package'
RULE = ('documents of every generator (paragraphs, marks, links with odd targets, ruled and borderless tables, pictures in the flow, in cells and floating, '
        'drawings, hostile extras, selected pages, settings, restored pages) and sample files; the docx is validated part by part and element by '
        'element against the schema of what pdf2docx writes; distinct by seed, non-trivial with at least 50 elements')
NEED = {'docx': 100, 'elements': 50000}


def cases(tier, rnd):
    k = 4 if tier == 'quick' else 70
    out = M.mixed(rnd, [(8 * k, {'kind': 'doc'}), (8 * k, {'kind': 'table'}), (6 * k, {'kind': 'odd'}), (6 * k, {'kind': 'links'}), (4 * k, {'kind': 'many'})])
    return out + [{'kind': 'sample', 'index': i, 'seed': i} for i in range(len(D.samples(tier != 'quick')))]


URIS = ['http://example.com/', 'https://a.b/c?d=e&f=<g>"h"', "http://x/y'z", 'http://x/%20%41', 'mailto:a@b.c', 'http://x/a b', 'http://x/\xe4\xf6', 'file:///C:/x y/z.pdf',
        'http://x/' + 'long' * 300, 'HTTP://X:80/#frag', 'ftp://u:p@h/x', 'x', '?a', '#b', 'http://[::1]/', 'http://x/\\y', 'tel:+1 2']


def build(case, rnd, path):
    kind = case['kind']
    if kind == 'sample': return D.samples(True)[case['index']], {}
    settings = {}
    if kind == 'doc': D.build(rnd, rnd.randint(1, 5))[0].save(path)
    elif kind == 'odd':
        pdf, words = Pdf(), T.Words(rnd)
        for _ in range(rnd.randint(1, 3)):
            p = pdf.page(*rnd.choice(T.SIZES[:3]))
            T.flow(p, rnd, words, top=60, bottom=p.h - 90, aligns=('left',), maxlines=4, colors=((0, 0, 0), (.2, .2, .6)))
            for _ in range(rnd.randint(1, 8)):
                s = rnd.choice(c14.KINDS)(pdf, p, rnd)
                if s: p.op('q ' + s + ' Q')
        pdf.save(path)
    else:
        pdf, words = Pdf(), T.Words(rnd)
        for _ in range(rnd.choice((1, 2))):
            p = pdf.page(*rnd.choice(T.SIZES))
            if kind == 'table': c05.build({'kind': rnd.choice(('plain', 'style', 'nested', 'rects', 'open', 'big', 'image', 'segments'))}, pdf, p, words, rnd)
            elif kind == 'links':
                for i in range(rnd.randint(3, 25)):
                    y, s = 50 + 26 * i, rnd.choice((7.3, 9, 10.5, 11.2, 14, 40 * rnd.random() + 1))
                    if y + 30 > p.h: break
                    t = ' '.join(words() for _ in range(3))
                    p.text(60, y, t, size=s, color=tuple(rnd.random() for _ in range(rnd.choice((1, 3, 3, 4)))))
                    if rnd.random() < .7: p.link(60, y - s * .8, 60 + rnd.uniform(5, 200), y + s * .2, rnd.choice(URIS))
                    if rnd.random() < .3: p.rect(60, y + 1, 60 + rnd.uniform(5, 200), y + 2, fill=tuple(rnd.random() for _ in range(3)))
                    if rnd.random() < .3: p.rect(60, y - s * .8, 60 + rnd.uniform(5, 200), y + s * .2, fill=tuple(rnd.random() for _ in range(3)))
            else:   # many pictures
                pics = [c08.make(pdf, rnd) for _ in range(rnd.randint(2, 6))]
                for i in range(rnd.randint(5, 14)):
                    x, y = rnd.uniform(-20, p.w - 30), rnd.uniform(-20, p.h - 30)
                    p.image(rnd.choice(pics).idx, x, y, x + rnd.uniform(3, 200), y + rnd.uniform(3, 100))
                    if rnd.random() < .6: p.text(max(x, 5), max(y, 15), words())
        pdf.save(path)
    return path, settings


def run(case):
    res, rnd = Result(), random.Random(case['seed'])
    from pdf2docx import Converter
    res.sig = [case['kind'], case['seed']]
    with conv.scratch() as d:
        path, settings = build(case, rnd, os.path.join(d, 'in.pdf'))
        out = os.path.join(d, 'o.docx')
        with conv.quiet() as log:
            try:
                cv = Converter(path)
                cv.convert(out, kwargs=settings)
                files = [open(out, 'rb').read()]
                if rnd.random() < .3:
                    cv.serialize(os.path.join(d, 'l.json'))
                    cv2 = Converter(path)
                    cv2.deserialize(os.path.join(d, 'l.json'))
                    cv2.make_docx(out)
                    cv2.close()
                    files.append(open(out, 'rb').read())
                    cv.make_docx(out)       # once more
                    files.append(open(out, 'rb').read())
                cv.close()
            except Exception as e: res.bad('error', '%s: %r' % (case['kind'], e)); return res
        if 'Ignore page' in log.getvalue(): res.bad('ignored', log.getvalue()[-300:]); return res
    for b in files:
        res.count('docx')
        seen = set()
        def bad(key, msg):
            if (key, msg) in seen or len(seen) > 30: return
            seen.add((key, msg))
            res.bad(key, '%s: %s' % (case['kind'], msg))
        schema.validate(io.BytesIO(b), bad, res.count)
    return res
