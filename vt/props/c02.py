# -*- coding: utf-8 -*-
'''C02 two columns'''
import random
from .. import common as M
from .. import docxr
from .. import gen_doc as D
from .. import gen_table as G
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf
from . import c20

TITLE = 'Pages of two columns keep the columns'
RULE = ('generated pages of two columns of paragraphs (different lengths, alignments, sizes, gutters), with and without lines across the page above and below, pictures and ruled tables in '
        'a column; the docx is laid out by a simulator and every line compared with where it was drawn; distinct by case')
NEED = {'lines': 1500, 'above': 30, 'below': 20}


def cases(tier, rnd):
    k = 6 if tier == 'quick' else 50
    return M.mixed(rnd, [(24 * k, {'kind': 'plain'}), (24 * k, {'kind': 'around'}), (12 * k, {'kind': 'picture'}), (12 * k, {'kind': 'table'}), (10 * k, {'kind': 'pages'})], enc=.3)


def column(p, pdf, rnd, words, x0, x1, y, bottom, kind, t):
    aligns = rnd.choice((('left',), ('left', 'left', 'center'), ('justify', 'left'), ('left', 'indent'), ('right',)))
    parts = []
    kw = dict(left=x0, right=x1, aligns=aligns, sizes=(8, 9, 10), gap=(5, 16), mix=rnd.random() < .5)
    if kind in ('picture', 'table') and bottom - y > 200 and rnd.random() < .7:
        parts += T.flow(p, rnd, words, top=y, bottom=y + rnd.uniform(40, 120), **kw)
        y = (parts[-1].bottom if parts else y) + 12
        if kind == 'picture':
            w, h = (x1 - x0) * rnd.uniform(.3, .95), rnd.uniform(30, 70)
            a = x0
            p.image(D.picture(pdf, rnd), a, y, a + w, y + h)
            t['pics'].append((a, y, a + w, y + h))
            y += h + 12
        else:
            q = G.lattice(p, rnd, words, x0, x1, y, y + 110, R=rnd.randint(2, 3), C=rnd.randint(1, 3), merge=0, size=7, minw=30, rowh=(20, 34), style='uniform')
            if q is not None:
                t['tables'].append(q)
                y = q.ys[-1] + 14
    bl = T.flow(p, rnd, words, top=y, bottom=bottom, **kw)
    return parts + bl


def page(pdf, rnd, words, kind, res):
    p = pdf.page(*rnd.choice(((595, 842), (612, 792), (842, 595), (792, 1224))))
    t = dict(pics=[], tables=[])
    side = rnd.uniform(40, 71)          # the page body is symmetric
    mid, g = p.w / 2, rnd.uniform(7, 16)
    y, above, below = rnd.uniform(45, 90), [], []
    if kind == 'around' or rnd.random() < .3:
        above = T.flow(p, rnd, words, top=y, bottom=y + rnd.uniform(30, 90), left=side, right=p.w - side, aligns=('left', 'center'), maxlines=1, sizes=(10, 12, 16), gap=(5, 12))
        above = [b for b in above]
        if above: res.count('above'); y = above[-1].bottom + rnd.uniform(8, 30)
    end = p.h - rnd.uniform(50, 90)
    low = end - 90 if kind == 'around' else end
    bl = column(p, pdf, rnd, words, side, mid - g, y, low - rnd.choice((0, rnd.uniform(0, (low - y) * .6))), kind, t)
    br = column(p, pdf, rnd, words, mid + g, p.w - side, y + rnd.choice((0, rnd.uniform(0, 40))), low - rnd.choice((0, rnd.uniform(0, (low - y) * .6))), kind, t)
    if kind == 'around' and bl and br:
        z = max([bl[-1].bottom, br[-1].bottom] + [q.ys[-1] for q in t['tables']] + [b[3] for b in t['pics']]) + rnd.uniform(8, 25)
        below = T.flow(p, rnd, words, top=z, bottom=p.h - 40, left=side, right=p.w - side, aligns=('left',), maxlines=2, sizes=(9, 10, 12))
        if below: res.count('below')
    return p, t, above, bl, br, below


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf, words = Pdf(), T.Words(rnd)
    pages = [page(pdf, rnd, words, kind, res) for _ in range(rnd.randint(2, 3) if kind == 'pages' else 1)]
    res.sig = [kind, case['seed']]
    r = M.convert(res, pdf.tobytes(), len(pages))
    if r is None: return res
    for sec, (p, t, above, bl, br, below) in zip(r.docx.sections, pages):
        cells = [c for q in t['tables'] for c in q.cells]
        inner = [b for c in cells for b in c.blocks]
        c20.check(res, sec, above + bl + br + below + inner, p, loose=[l for b in inner for l in b.lines], toly=2.6 if inner else c20.TOLY)
        # one column after the other
        got = {x: i for i, x in enumerate(M.words_of(sec))}
        at = lambda bs: [got[x] for b in bs for l in b.lines for x in l.text.split() if x in got]
        for name, bs in (('above', above), ('left', bl), ('right', br), ('below', below)):
            q = at(bs)
            if q != sorted(q): res.bad('order', 'the lines of part "%s" are out of order' % name)
        a, u, v, b = at(above), at(bl), at(br), at(below)
        # lines at one side of the page only look like a part of a column
        cross = all(l.x0 < p.w / 2 - 4 and l.ink_x1 > p.w / 2 + 4 for x in above + below for l in x.lines)
        # the page is divided at the centre of its body
        allb = above + bl + br + below + inner
        boxes = t['pics'] + [(q.xs[0], q.ys[0], q.xs[-1], q.ys[-1]) for q in t['tables']] + [(l.x0, l.top, l.ink_x1, l.bottom) for b in allb for l in b.lines]
        m0 = min(72.0, min(b[0] for b in boxes))
        ends = [min(72.0, max(0.0, p.w - max(x) - 5)) for x in ([b[2] for b in boxes], [b[2] for b in boxes] + [l.x1 for b in allb for l in b.lines])]
        for m1 in ends:
            X = (m0 + p.w - m1) / 2
            cross = cross and all(l.x1 < X - 1 for b in bl for l in b.lines) and all(l.x0 > X + 1 for b in br for l in b.lines) and all(b[2] < X - 1 or b[0] > X + 1 for b in boxes[:len(t['pics']) + len(t['tables'])])
        if cross: res.count('crossing')
        if cross and u and v and max(u) > min(v): res.bad('columns', 'the columns are mixed')
        if a and (u or v) and max(a) > min(u + v): res.bad('above', 'lines above the columns come later')
        if b and u and min(b) < max(u): res.bad('below', 'lines below the columns come earlier')
        for x0, y0, x1, y1 in t['pics']:
            m = [i for q in docxr.walk(sec.items) for i in q.images if abs(i.cx - (x1 - x0)) < 1 and abs(i.cy - (y1 - y0)) < 1]
            res.count('pictures')
            if not m: res.bad('picture', 'a picture of %.1f x %.1f pt is missing' % (x1 - x0, y1 - y0))
        res.count('columns', bool(bl) + bool(br))
    return res
