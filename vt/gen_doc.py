# -*- coding: utf-8 -*-
'''Documents of several pages of everything, every page with unique words.'''
import glob
import os
from . import env
from . import gen_table as G
from . import gen_text as T
from .pdfw import Pdf

KINDS = ('text', 'text', 'marks', 'table', 'stream', 'columns', 'image', 'float', 'vector', 'blank', 'mixed', 'shared')


def picture(pdf, rnd, w=None, h=None, mask=None):
    w, h = w or rnd.randint(2, 12), h or rnd.randint(2, 12)
    data = bytes(rnd.randrange(256) for _ in range(w * h * 3))
    sm = bytes(rnd.choice((0, 255)) for _ in range(w * h)) if (rnd.random() < .3 if mask is None else mask) else None
    return pdf.add_image(w, h, data, smask=sm)


def vector(p, rnd, x0, y0, x1, y1):
    '''a figure of curves and slanted lines'''
    X = lambda: rnd.uniform(x0, x1)
    Y = lambda: rnd.uniform(y0, y1)
    p.poly([(x0, y1), ((x0 + x1) / 2, y0), (x1, y1)], fill=rnd.choice(G.FILLS), stroke=rnd.choice(G.COLORS), width=1)
    for _ in range(rnd.randint(2, 5)): p.curve([(X(), Y()) for _ in range(4)], stroke=rnd.choice(G.COLORS), width=rnd.uniform(.5, 2))


class Page:
    def __init__(self, kind): self.kind, self.words, self.tables, self.items = kind, [], [], []


def add_page(pdf, rnd, words, kind, rotate=0, size=None):
    '''-> Page (truth)'''
    p = pdf.page(*(size or rnd.choice(T.SIZES)), rotate=rotate)
    p.form = rnd.choice(('re', 're', 're', 'neg', 'poly', 'polyl', 'polyo'))
    t = Page(kind)
    start = words.n

    def text(bl): t.words += [x for b in bl for l in b.lines for x in l.text.split()]
    L, Rt = rnd.uniform(50, 80), p.w - rnd.uniform(50, 80)
    if kind == 'text': text(T.flow(p, rnd, words, left=L, right=Rt))
    elif kind == 'marks':
        bl = T.flow(p, rnd, words, left=L, right=Rt, gap=(8, 20))
        text(bl)
        for b in bl:
            for l in b.lines:
                if rnd.random() < .5: continue
                k = rnd.choice('uhsa')
                s = l.spans[0]
                a, e = s.x0, s.x0 + s.wd(s.s.rstrip())
                if k == 'a': p.link(a, l.top + 1, e, l.bottom - 1, 'http://x.org/%d?a=1&b=2' % rnd.randrange(1000))
                elif k == 'h': p.ops.insert(0, ('%s rg %.2f %.2f %.2f %.2f re f' % (' '.join(map(str, rnd.choice(G.FILLS))), a, p.Y(l.bottom), e - a, l.bottom - l.top)).encode())
                else:
                    y = l.y + s.size * .15 if k == 'u' else l.y - s.size * .28
                    p.rect(a, y, e, y + .6, fill=rnd.choice(G.COLORS))
    elif kind == 'table':
        y = 60.0
        text(T.flow(p, rnd, words, top=y, bottom=y + 50, left=L, right=Rt, maxlines=2))
        for _ in range(rnd.randint(1, 2)):
            kw = rnd.choice(({}, {}, {'nested': .5, 'R': rnd.randint(1, 3), 'rowh': (30, 90)}, {'vertical': .4, 'rowh': (30, 90)}, {'snug': True, 'rowh': (16, 40), 'mode': 'span', 'size': 9}))
            q = G.lattice(p, rnd, words, L, Rt, y + 60, p.h - 60, style=rnd.choice(('uniform', 'lines')), **kw)
            if q is None: break
            t.tables.append(q)
            t.words += [x for c in q.all_cells() for x in c.words]
            y = q.ys[-1] - 30
    elif kind == 'stream':
        text(T.flow(p, rnd, words, top=60, bottom=110, left=L, right=Rt, maxlines=2))
        n, y = rnd.randint(2, 4), 130.0
        xs = [L + k * (Rt - L) / n for k in range(n)]
        for _ in range(rnd.randint(3, 8)):
            for x in xs:
                s = words()
                p.text(x, y, s, 'helv', 9)
                t.words.append(s)
            y += 18
        text(T.flow(p, rnd, words, top=y + 20, left=L, right=Rt))
    elif kind == 'columns':
        m = p.w / 2
        text(T.flow(p, rnd, words, top=70, left=50, right=m - 12, aligns=('left',)))
        text(T.flow(p, rnd, words, top=70, left=m + 12, right=p.w - 50, aligns=('left',)))
    elif kind in ('image', 'float', 'mixed'):
        y = 60.0
        for _ in range(rnd.randint(1, 3)):
            bl = T.flow(p, rnd, words, top=y, bottom=y + 70, left=L, right=Rt, maxlines=3)
            text(bl)
            y = (bl[-1].bottom if bl else y) + 10
            w, h = rnd.uniform(30, 150), rnd.uniform(20, 80)
            im = picture(pdf, rnd)
            p.image(im, L, y, L + w, y + h)
            t.items.append(im)
            if kind == 'float': p.image(picture(pdf, rnd), L + w / 2, y + h / 2, L + w * 1.2, y + h * 1.1)
            if kind == 'mixed': vector(p, rnd, L + w + 40, y, L + w + 100, y + h)
            y += h + 12
    elif kind == 'vector':
        text(T.flow(p, rnd, words, top=60, bottom=200, left=L, right=Rt))
        vector(p, rnd, L + 20, 230, L + rnd.uniform(100, 250), rnd.uniform(290, 400))
    elif kind == 'shared':
        # same content streams as the page before
        src = [i for i, q in enumerate(pdf.pages[:-1]) if q.share is None and (q.w, q.h, q.rotate) == (p.w, p.h, p.rotate)]
        if src: p.share = src[-1]
        else: text(T.flow(p, rnd, words, left=L, right=Rt))
    t.fresh = words.n > start
    return t


def build(rnd, n=None, kinds=KINDS, rot=0.15, same=None):
    '''-> (Pdf, [Page])'''
    pdf, words, truth = Pdf(), T.Words(rnd), []
    size = same or (rnd.choice(T.SIZES) if rnd.random() < .5 else None)
    for _ in range(n or rnd.randint(2, 7)):
        k = rnd.choice(kinds)
        t = add_page(pdf, rnd, words, k, rotate=rnd.choice((90, 180, 270)) if rnd.random() < rot else 0, size=size)
        if pdf.pages[-1].share is not None: t.words = list(truth[pdf.pages[-1].share].words)
        truth.append(t)
    return pdf, truth


SLOW = ('demo-path-transformation', 'demo-table-close-underline', 'demo-table-shading', 'demo-table-shading-highlight', 'demo.pdf', 'demo-text-scaling')


def samples(slow=False):
    '''sample files of the repository; a conversion of a slow one takes 3-15 s'''
    d = os.path.join(env.REPO, 'test', 'samples')
    return [f for f in sorted(glob.glob(os.path.join(d, '*.pdf'))) if slow or not os.path.basename(f).startswith(SLOW)]
