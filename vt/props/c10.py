# -*- coding: utf-8 -*-
'''C10 page geometry'''
import random
from .. import common as M
from .. import docxr, sim
from .. import gen_doc as D
from .. import gen_table as G
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf
from . import c09

TITLE = 'Pages keep their size and number, margins enclose the content'
RULE = ('generated documents of 1-6 pages of any size, rotation, crop box and origin with text, tables, pictures, figures, marks or nothing, near and far from the page edges, '
        'under default and other margin factors; size, orientation and margins of every section compared with what was drawn; distinct by case')
NEED = {'pages': 300, 'blank': 30, 'near': 60, 'factor': 30, 'tables': 30, 'pictures': 30, 'figures': 20}
ITP = 72.0


def cases(tier, rnd):
    k = 5 if tier == 'quick' else 30
    return M.mixed(rnd, [(90 * k, {'kind': 'mix'}), (50 * k, {'kind': 'near'}), (40 * k, {'kind': 'factor'}), (30 * k, {'kind': 'size'}), (25 * k, {'kind': 'over'})], enc=.4)


def size_of(rnd, kind):
    if kind == 'size': return (round(rnd.choice((rnd.uniform(150, 500), rnd.uniform(400, 1500))), rnd.randint(0, 3)), round(rnd.choice((rnd.uniform(200, 500), rnd.uniform(400, 1500))), rnd.randint(0, 3)))
    return rnd.choice(T.SIZES + ((595.276, 841.89), (500, 500), (1190.55, 841.89)))


def one(pdf, rnd, words, kind, res):
    '''draws a page -> (w, h, [(x0, y0, x1, y1, slack)], words): slack is how much more right the box may end'''
    p = pdf.page(*size_of(rnd, kind), **({} if rnd.random() < .7 else {'rotate': rnd.choice((90, 180, 270))}))
    W, H = p.w, p.h
    p.form = rnd.choice(('re', 'neg', 'poly'))
    box, seen = [], []
    what = rnd.choice(('text', 'text', 'table', 'picture', 'figure', 'marks', 'blank', 'several'))
    near = kind == 'near'
    if near: res.count('near')
    pick = lambda m: rnd.uniform(0, min(30, m / 4)) if near else rnd.uniform(20, min(110, m / 4))
    L, R, y = pick(W), W - pick(W), pick(H)
    end = H - pick(H)

    def text(y, bottom):
        bl = T.flow(p, rnd, words, top=y, bottom=bottom, left=L, right=R, maxlines=3, sizes=(8, 9, 10, 11))
        for b in bl:
            for l in b.lines:
                box.append((l.x0, l.top, l.ink_x1, l.bottom, l.x1 - l.ink_x1))
                seen.extend(l.text.split())
        return (bl[-1].bottom if bl else y) + 10
    if what in ('text', 'several'): y = text(y, rnd.uniform(y + 40, end) if what == 'text' else y + 50)
    if what in ('table', 'several') and R - L > 80:
        q = G.lattice(p, rnd, words, L, R, y, end, R=rnd.randint(2, 5), C=rnd.randint(1, 4), merge=0, size=8, minw=30, rowh=(20, 40))
        if q is not None and (len(q.xs) > 2 or len(q.ys) > 2):
            w = max(a for a, _ in list(q.hstyle.values()) + list(q.vstyle.values())) / 2
            box.append((q.xs[0] - w, q.ys[0] - w, q.xs[-1] + w, q.ys[-1] + w, 0))
            seen.extend(x for c in q.all_cells() for x in c.words)
            y = q.ys[-1] + 14
            res.count('tables')
    if what in ('picture', 'several') and end - y > 40:
        w, h = rnd.uniform(20, R - L), rnd.uniform(20, min(150, end - y))
        a = L + rnd.uniform(0, R - L - w)
        if kind == 'over' and rnd.random() < .7: a = rnd.choice((-w * .3, W - w * .6))
        p.image(D.picture(pdf, rnd, mask=False), a, y, a + w, y + h)
        box.append((max(a, 0), y, min(a + w, W), y + h, 0))
        y += h + 14
        res.count('pictures')
    if what == 'figure' and end - y > 60:
        w, h = rnd.uniform(40, R - L), rnd.uniform(40, min(150, end - y))
        f = c09.figure(rnd, L + 3, y + 3, L + w - 3, y + h - 3, styles=('mixed',))
        c09.draw(p, f)
        w = f.draws[0][2]['width'] / 2
        box.append((f.box[0] - w, f.box[1] - w, f.box[2] + w, f.box[3] + w, 0, 4.0 if min(L, y, W - f.box[2], H - f.box[3]) > 16 else 16.0))      # pictures of figures have some points of background around
        y += h + 14
        res.count('figures')
    if what == 'marks':
        bl = T.flow(p, rnd, words, top=y, bottom=min(end, y + 120), left=L, right=R, maxlines=2, sizes=(9, 10, 11))
        for b in bl:
            for l in b.lines:
                box.append((l.x0, l.top, l.ink_x1, l.bottom, l.x1 - l.ink_x1))
                seen.extend(l.text.split())
                a, e = l.x0, l.ink_x1
                if rnd.random() < .5: p.ops.insert(0, ('1 1 0 rg %.2f %.2f %.2f %.2f re f' % (a, p.Y(l.bottom), e - a, l.bottom - l.top)).encode())
                if rnd.random() < .5: p.rect(a, l.y + 1.2, e, l.y + 1.8, fill=(.8, 0, 0))
    if not box: res.count('blank')
    return p, W, H, box, seen, what


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf, words, pages = Pdf(), T.Words(rnd), []
    for _ in range(rnd.randint(1, 6)): pages.append(one(pdf, rnd, words, kind, res))
    s = {}
    if kind == 'factor': s = {k: rnd.choice((0.0, 0.25, 0.4, 0.8, 1.0)) for k in rnd.sample(('page_margin_factor_top', 'page_margin_factor_bottom'), rnd.randint(1, 2))}
    if s: res.count('factor')
    r = M.convert(res, pdf.tobytes(), len(pages), kwargs=s)
    if r is None: return res
    ft, fb = s.get('page_margin_factor_top', .5), s.get('page_margin_factor_bottom', .5)
    for n, (sec, (p, W, H, box, seen, what)) in enumerate(zip(r.docx.sections, pages)):
        tag = 'page %d (%s, %gx%g, rot %s)' % (n, what, W, H, p.rotate)
        got = M.words_of(sec)
        if sorted(''.join(got)) != sorted(''.join(seen)): res.bad('words', '%s: %s' % (tag, M.diff(seen, got)))
        if n and sec.type not in (None, 'nextPage') or sec.cols != 1: res.bad('start', '%s: the section is no page of its own (%s, %s columns)' % (tag, sec.type, sec.cols))
        if abs(sec.w - W) > .1 or abs(sec.h - H) > .1: res.bad('size', '%s: the section is %.2f x %.2f' % (tag, sec.w, sec.h))
        m = dict(left=sec.left, right=sec.right, top=sec.top, bottom=sec.bottom)
        if not box: want = {k: (ITP, ITP) for k in m}
        else:
            inner = [f(b[i] for b in box) for i, f in enumerate((min, min, max, max))]
            outer = [f(b[i] + (-u if i < 2 else u) + (b[4] if i == 2 else 0) for b in box for u in [b[5] if len(b) > 5 else 0.0]) for i, f in enumerate((min, min, max, max))]
            lim = lambda v: min(ITP, max(0.0, v))
            want = dict(left=(lim(outer[0]), lim(inner[0])), right=(lim(W - outer[2] - 5), lim(W - inner[2])),
                        top=(lim(outer[1] * ft), lim(inner[1] * ft)), bottom=(lim((H - outer[3]) * fb), lim((H - inner[3]) * fb)))
        for k, (a, b) in want.items():
            if not a - 1.6 <= m[k] <= b + 1.6: res.bad('margin', '%s: %s margin is %.2f instead of %.2f-%.2f%s' % (tag, k, m[k], a, b, ' (%r)' % s if s else ''))
    res.sig = [kind, case['seed']]
    res.note = '%s: %s' % (kind, [(x[5], x[1], x[2], x[0].rotate) for x in pages])
    return res
