# -*- coding: utf-8 -*-
'''C08 raster pictures'''
import random
import numpy as np
from .. import common as M
from .. import docxr, sim
from .. import gen_table as G
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf

TITLE = 'Pictures keep pixels, transparency, size and place'
RULE = ('generated pages with pictures (gray, RGB, CMYK, indexed, 1 and 8 bit, with and without soft mask, inverted, JPEG), between paragraphs, in rows, in table cells, across borders of cells, over text, partly off '
        'the page, several times on a page, turned, mirrored or at any angle, stencils, on several pages, and different pictures with the same samples or the same mask; every picture read back from the docx is compared with the one '
        'drawn: pixels, size, position; distinct by case')
NEED = {'turned': 100, 'tilted': 20, 'stencil': 20, 'pictures': 500, 'positions': 200, 'masked': 100, 'repeated': 40}


def cases(tier, rnd):
    k = 6 if tier == 'quick' else 25
    return M.mixed(rnd, [(60 * k, {'kind': 'flow'}), (40 * k, {'kind': 'repeat'}), (40 * k, {'kind': 'twins'}), (30 * k, {'kind': 'row'}), (25 * k, {'kind': 'cell'}), (10 * k, {'kind': 'across'}), (10 * k, {'kind': 'overlay'}),
                         (25 * k, {'kind': 'float'}), (25 * k, {'kind': 'edge'}), (15 * k, {'kind': 'pages'}), (15 * k, {'kind': 'tilted'}), (15 * k, {'kind': 'stencil'})], enc=.3)


class Pic:
    '''index in the pdf and the expected BGR(A) pixels'''
    known, twin = None, False

    def __init__(self, idx, px, exact=True): self.idx, self.px, self.exact = idx, px, exact


def mask_of(rnd, w, h, pool=(0, 255)):
    m = np.array([rnd.choice(pool) for _ in range(w * h)], np.uint8).reshape(h, w)
    m[0, 0] = 255
    return m


def make(pdf, rnd, plain=False, w=None, h=None):
    '''a new picture -> Pic'''
    w, h = w or rnd.randint(2, 14), h or rnd.randint(2, 14)
    cs = 'DeviceRGB' if plain else rnd.choice(('DeviceRGB', 'DeviceRGB', 'DeviceRGB', 'DeviceGray', 'DeviceCMYK', 'indexed', 'bits', 'inverted', 'jpeg'))
    raw = lambda n: bytes(rnd.randrange(256) for _ in range(n))
    m = mask_of(rnd, w, h, rnd.choice(((0, 255), (0, 255), (0, 1, 128, 255)))) if rnd.random() < .35 and cs != 'jpeg' else None
    sm = m.tobytes() if m is not None else None
    if m is not None: m = np.where(m > 0, 255, 0).astype(np.uint8)      # whatever isn't fully transparent is opaque
    exact = True
    if cs in ('DeviceRGB', 'inverted'):
        d = raw(w * h * 3)
        a = np.frombuffer(d, np.uint8).reshape(h, w, 3)
        i = pdf.add_image(w, h, d, smask=sm, decode='1 0 1 0 1 0' if cs == 'inverted' else None)
        px = (255 - a if cs == 'inverted' else a)[:, :, ::-1]
    elif cs == 'DeviceGray':
        d = raw(w * h)
        i = pdf.add_image(w, h, d, cs=cs, smask=sm)
        px = np.repeat(np.frombuffer(d, np.uint8).reshape(h, w, 1), 3, 2)
    elif cs == 'DeviceCMYK':
        d = raw(w * h * 4)
        i, exact = pdf.add_image(w, h, d, cs=cs, smask=sm), False
        a = np.frombuffer(d, np.uint8).reshape(h, w, 4).astype(int)
        px = (255 - np.minimum(255, a[:, :, :3] + a[:, :, 3:]))[:, :, ::-1]
    elif cs == 'indexed':
        pal = [[rnd.randrange(256) for _ in range(3)] for _ in range(4)]
        d = bytes(rnd.randrange(4) for _ in range(w * h))
        i = pdf.add_image(w, h, d, cs='Indexed', smask=sm)
        pdf.images[i]['cs'] = '[/Indexed /DeviceRGB 3 <%s>]' % ''.join('%02x%02x%02x' % tuple(p) for p in pal)
        px = np.array(pal, np.uint8)[np.frombuffer(d, np.uint8).reshape(h, w)][:, :, ::-1]
    elif cs == 'bits':
        b = np.array([rnd.randrange(2) for _ in range(w * h)], np.uint8).reshape(h, w)
        b[0, 0] = 1 - b[-1, -1]
        i = pdf.add_image(w, h, np.packbits(b, axis=1).tobytes(), cs='DeviceGray', bpc=1, smask=sm)
        px = np.repeat((b * 255)[:, :, None], 3, 2)
    else:
        import cv2
        w, h = 8 * rnd.randint(2, 4), 8 * rnd.randint(2, 4)
        a = np.zeros((h, w, 3), np.uint8)
        for y in range(0, h, 8):
            for x in range(0, w, 8): a[y:y + 8, x:x + 8] = [rnd.randrange(256) for _ in range(3)]
        ok, e = cv2.imencode('.jpg', a, [cv2.IMWRITE_JPEG_QUALITY, 95])
        i, exact = pdf.add_image(w, h, e.tobytes(), filt='DCTDecode'), None
        px = cv2.imdecode(e, cv2.IMREAD_COLOR)
    return Pic(i, with_alpha(px, m), exact)


def with_alpha(px, m):
    px = np.ascontiguousarray(px).astype(np.uint8)
    return px if m is None else np.dstack([px, m])


def same(a, b, exact):
    '''pixels of the docx like those of the PDF; what is transparent has no colour'''
    if a is None: return False
    if a.ndim == 2: a = np.repeat(a[:, :, None], 3, 2)
    if a.shape[:2] != b.shape[:2]: return False
    aa = a[:, :, 3] if a.shape[2] == 4 else np.full(a.shape[:2], 255, np.uint8)
    ba = b[:, :, 3] if b.shape[2] == 4 else np.full(b.shape[:2], 255, np.uint8)
    if (aa != ba).any(): return False
    vis = ba == 255
    d = np.abs(a[:, :, :3].astype(int) - b[:, :, :3].astype(int))[vis]
    if d.size == 0: return True
    if exact is None: return d.mean() <= 25         # JPEG: decoders differ in the colours at edges
    return d.max() <= 1 if exact else d.max() <= 130 and d.mean() <= 60


class Shown:
    def __init__(self, pic, x0, y0, x1, y1, pos=True, turn=0, mirror=False):
        self.pic, self.box, self.pos = pic, (x0, y0, x1, y1), pos
        self.px = np.rot90(pic.px, turn)
        if mirror: self.px = self.px[:, ::-1]


def drawn(case, res, rnd, kind):
    '''pictures at any angle, and stencils: the picture in the docx shows what the page shows'''
    pdf, words, out = Pdf(), T.Words(rnd), []
    p = pdf.page(*rnd.choice(T.SIZES))
    y = rnd.uniform(50, 90)
    while y < p.h - 220:
        bl = T.flow(p, rnd, words, top=y, bottom=y + 40, left=60, right=p.w - 60, maxlines=2, aligns=('left',))
        if bl: y = bl[-1].bottom
        n, m = rnd.randint(1, 3), rnd.randint(1, 3)
        w, h = rnd.uniform(40, 130), rnd.uniform(40, 110)
        ang = rnd.uniform(0, 6.283) if kind == 'tilted' else None
        R = (w * w + h * h) ** .5 / 2 if ang is not None else h / 2
        x = rnd.uniform(65 + R, p.w - 65 - R) - w / 2 if ang is not None else rnd.uniform(65, p.w - 65 - w)
        y0 = y + 20 + R - h / 2
        cells = {}
        if kind == 'tilted':
            a = np.zeros((8 * n, 8 * m, 3), np.uint8)
            for i in range(n):
                for j in range(m): cells[i, j] = a[8 * i:8 * i + 8, 8 * j:8 * j + 8] = [rnd.choice((0, 90, 180, 255)) for _ in range(3)]
            i, color = pdf.add_image(8 * m, 8 * n, a.tobytes()), None
        else:
            color = [rnd.choice((0, .3, .6)) for _ in range(3)]
            inv = rnd.random() < .5
            b = np.zeros((8 * n, 8 * m), np.uint8)
            for i in range(n):
                for j in range(m):
                    v = b[8 * i:8 * i + 8, 8 * j:8 * j + 8] = rnd.randrange(2) if (i, j) != (0, 0) else int(inv)
                    cells[i, j] = [255 * c for c in color] if v == int(inv) else [255] * 3
            i = pdf.add_image(8 * m, 8 * n, np.packbits(b, axis=1).tobytes(), mask=True, decode='1 0' if inv else None)
        at = p.image(i, x, y0, x + w, y0 + h, rnd.randrange(4), rnd.random() < .3, ang, color)
        c = [at(u, v) for u in (0, 1) for v in (0, 1)]
        out.append((min(q[0] for q in c), min(q[1] for q in c), max(q[0] for q in c), max(q[1] for q in c), at, n, m, cells))
        y = max(q[1] for q in c) + rnd.uniform(10, 30)
    res.sig = [kind, case['seed']]
    r = M.convert(res, pdf.tobytes(), 1, kind)
    if r is None: return res
    got = [im for q in docxr.walk(r.docx.sections[0].items) for im in q.images]
    if len(got) != len(out): res.bad('lost:' + kind, '%d pictures instead of %d' % (len(got), len(out))); return res
    for x0, y0, x1, y1, at, n, m, cells in out:
        im = min(got, key=lambda im: abs(im.cx - (x1 - x0)) + abs(im.cy - (y1 - y0)))       # two next to each other may come as columns
        got.remove(im)
        res.count('pictures'); res.count(kind)
        if abs(im.cx - (x1 - x0)) > 1.1 or abs(im.cy - (y1 - y0)) > 1.1: res.bad('size:' + kind, 'picture of %.2f x %.2f pt instead of %.2f x %.2f' % (im.cx, im.cy, x1 - x0, y1 - y0)); continue
        a = im.array()
        if a.ndim == 2: a = np.repeat(a[:, :, None], 3, 2)
        for (i, j), want in cells.items():
            X, Y = at((j + .5) / m, (i + .5) / n)
            px = a[min(a.shape[0] - 1, int((Y - y0) / (y1 - y0) * a.shape[0])), min(a.shape[1] - 1, int((X - x0) / (x1 - x0) * a.shape[1]))]
            px = [255] * 3 if len(px) == 4 and px[3] == 0 else [int(v) for v in px[2::-1]]
            if max(abs(u - v) for u, v in zip(px, want)) > 6: res.bad('pixels:' + kind, 'picture of %.1f x %.1f pt: colour %s instead of %s at (%.2f, %.2f) of it' % (im.cx, im.cy, px, [round(v) for v in want], (X - x0) / (x1 - x0), (Y - y0) / (y1 - y0))); break
    return res


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    if kind in ('tilted', 'stencil'): return drawn(case, res, rnd, kind)
    pdf, words, shown, marks = Pdf(), T.Words(rnd), [], []
    stock, kind_of, keep = [], {}, []
    for pg in range(rnd.randint(2, 4) if kind == 'pages' else 1):
        p = pdf.page(*rnd.choice(T.SIZES))
        out, text, line_of = [], [], {}
        half = lambda v: round(v * 2) / 2 if rnd.random() < .5 else v       # coordinates at .5 are an edge case of rounding

        def put(pic, x0, y0, x1, y1, pos=True):
            if kind in ('flow', 'repeat', 'pages') and rnd.random() < .15:
                p.form_image(pdf, pic.idx, x0, y0, x1, y1)
                res.count('forms')
            elif rnd.random() < .3:
                turn, mirror = rnd.randrange(4), rnd.random() < .3
                p.image(pic.idx, x0, y0, x1, y1, turn, mirror)
                out.append(Shown(pic, x0, y0, x1, y1, pos, turn, mirror))
                if turn or mirror: res.count('turned')
                if pic.px.shape[2] == 4: res.count('masked')
                return
            else: p.image(pic.idx, x0, y0, x1, y1)
            out.append(Shown(pic, x0, y0, x1, y1, pos))
            if pic.px.shape[2] == 4: res.count('masked')

        def para(y, n=2):
            bl = T.flow(p, rnd, words, top=y, bottom=min(y + 40, p.h - 60), left=60, right=p.w - 60, maxlines=n, aligns=('left',))
            text.extend(x for b in bl for l in b.lines for x in l.text.split())
            line_of.update((x, id(l)) for b in bl for l in b.lines for x in l.text.split()); keep.extend(bl)
            return bl[-1].bottom if bl else y
        y = rnd.uniform(45, 90)
        if kind in ('flow', 'repeat', 'twins', 'pages'):
            if kind == 'twins':
                w, h = rnd.randint(3, 9), rnd.randint(3, 9)
                d = bytes(rnd.randrange(256) for _ in range(w * h * 3)) if rnd.random() < .5 else bytes(w * h * 3)
                for _ in range(rnd.randint(2, 3)):
                    m = mask_of(rnd, w, h)
                    px = np.frombuffer(d, np.uint8).reshape(h, w, 3)[:, :, ::-1]
                    stock.append(Pic(pdf.add_image(w, h, d, smask=m.tobytes()), with_alpha(px, m)))
                for s in stock: s.twin = True
                m = mask_of(rnd, w, h)
                for _ in range(2):       # the same mask, other samples
                    e = bytes(rnd.randrange(256) for _ in range(w * h * 3))
                    px = np.frombuffer(e, np.uint8).reshape(h, w, 3)[:, :, ::-1]
                    stock.append(Pic(pdf.add_image(w, h, e, smask=m.tobytes()), with_alpha(px, m)))
                if rnd.random() < .5:
                    stock.append(Pic(pdf.add_image(w, h, d), np.frombuffer(d, np.uint8).reshape(h, w, 3)[:, :, ::-1])); stock[-1].twin = True
                rnd.shuffle(stock)
            elif not stock or kind == 'flow': stock = [make(pdf, rnd) for _ in range(rnd.randint(1, 3))]
            queue, once = list(stock), kind == 'twins' and rnd.random() < .85
            while y < p.h - 150:
                if rnd.random() < .6: y = para(y) + rnd.uniform(8, 20)
                w, h = half(rnd.uniform(15, 200)), half(rnd.uniform(12, 90))
                if y + h > p.h - 60: break
                x = half(rnd.uniform(55, p.w - 60 - w))
                y = half(y)
                if once and not queue: break
                pic = queue.pop() if queue else rnd.choice(stock) if kind != 'flow' else make(pdf, rnd)
                if any(s.pic is pic for s in out): res.count('repeated')
                put(pic, x, y, x + w, y + h)
                y += h + rnd.uniform(8, 25)
        elif kind == 'row':
            y = para(y) + 20
            while y < p.h - 200:
                x, h = 60.0, rnd.uniform(20, 60)
                for _ in range(rnd.randint(2, 4)):
                    w = rnd.uniform(20, 100)
                    if x + w > p.w - 60: break
                    put(make(pdf, rnd), x, y, x + w, y + h, False)
                    x += w + rnd.uniform(12, 60)
                y = para(y + h + 20) + 20
        elif kind == 'cell':
            xs = [60.0]
            for _ in range(rnd.randint(2, 4)): xs.append(xs[-1] + rnd.uniform(80, 130))
            xs = [x for x in xs if x < p.w - 40]
            ys = [y]
            for _ in range(rnd.randint(2, 5)): ys.append(ys[-1] + rnd.uniform(40, 80))
            for x in xs: p.line(x, ys[0], x, ys[-1])
            for v in ys: p.line(xs[0], v, xs[-1], v)
            for i in range(len(ys) - 1):
                for j in range(len(xs) - 1):
                    if rnd.random() < .6:
                        a, b = rnd.uniform(4, 12), rnd.uniform(4, 12)
                        put(make(pdf, rnd), xs[j] + a, ys[i] + b, xs[j + 1] - rnd.uniform(4, 20), ys[i + 1] - rnd.uniform(4, 12), True)
                    else:
                        s = words(1, 2); text.append(s)
                        p.text(xs[j] + 5, ys[i] + 20, s, 'helv', 10)
            para(ys[-1] + 20)
        elif kind == 'across':
            # pictures across borders of cells
            xs = [60.0]
            for _ in range(rnd.randint(2, 4)): xs.append(xs[-1] + rnd.uniform(80, 130))
            xs = [x for x in xs if x < p.w - 40]
            ys = [y]
            for _ in range(rnd.randint(2, 4)): ys.append(ys[-1] + rnd.uniform(50, 80))
            for x in xs: p.line(x, ys[0], x, ys[-1])
            for v in ys: p.line(xs[0], v, xs[-1], v)
            for i in range(len(ys) - 1):
                for j in range(len(xs) - 1):
                    if i + 2 < len(ys) and rnd.random() < .3:      # down into the next row
                        put(make(pdf, rnd), xs[j] + 20, ys[i] + 30, xs[j] + 60, ys[i + 1] + rnd.uniform(2, 20), False)
                    elif j + 2 < len(xs) and rnd.random() < .6:
                        put(make(pdf, rnd), xs[j] + rnd.uniform(30, 70), ys[i] + 4, xs[j + 1] + rnd.uniform(1, 18), ys[i] + 21, False)
                    s = words(1, 2); text.append(s)
                    p.text(xs[j] + 4, ys[i + 1] - 5, s, 'helv', 8)
            para(ys[-1] + 20)
        elif kind == 'overlay':
            # pictures among shaded boxes, frames, tables and text, all at random
            from . import c01
            text += c01.overlay(p, rnd, words)
            boxes = []
            for _ in range(rnd.randint(1, 6)):
                w, h = rnd.uniform(15, 150), rnd.uniform(15, 100)
                x, t = rnd.uniform(40, p.w - 40 - w), rnd.uniform(50, p.h - 50 - h)
                if any(a < x + w + 5 and x < c + 5 and b < t + h + 5 and t < d + 5 for a, b, c, d in boxes): continue
                boxes.append((x, t, x + w, t + h))
                put(make(pdf, rnd), x, t, x + w, t + h, False)
        elif kind == 'float':
            bl = T.flow(p, rnd, words, left=60, right=p.w - 60, aligns=('left',))
            text.extend(x for b in bl for l in b.lines for x in l.text.split())
            line_of.update((x, id(l)) for b in bl for l in b.lines for x in l.text.split()); keep.extend(bl)
            for _ in range(rnd.randint(1, 3)):
                b = rnd.choice(bl)
                l = rnd.choice(b.lines)
                w, h = rnd.uniform(40, 120), rnd.uniform(30, 80)
                x, t = rnd.uniform(l.x0, max(l.x0 + 1, l.x1 - 50)), l.top - rnd.uniform(0, h - 20)
                if t < 5 or t + h > p.h - 5 or x + w > p.w: continue
                put(make(pdf, rnd), x, t, x + w, t + h)
                if rnd.random() < .4: put(make(pdf, rnd), x, t, x + w, t + h)      # another one on top, at the same place
        else:
            for _ in range(rnd.randint(1, 3)):
                w, h = rnd.uniform(40, 150), rnd.uniform(40, 120)
                x = rnd.choice((-w * rnd.uniform(.2, .7), p.w - w * rnd.uniform(.3, .8)))
                put(make(pdf, rnd), x, y, x + w, y + h, False)
                y = para(y + h + 15) + 15
                if y > p.h - 180: break
            if rnd.random() < .5:       # not on the page at all
                q = make(pdf, rnd)
                p.image(q.idx, p.w + 20, 50, p.w + 80, 90)
            if rnd.random() < .5:       # first off the page, then on it
                q = make(pdf, rnd)
                q.known = 'first-off-page'
                if y < p.h - 120:
                    p.image(q.idx, -300, 50, -220, 90)
                    put(q, 100, y, 160, y + 40)
        if kind == 'twins' and len(set(s.pic.idx for s in out)) < len(out):
            # pictures of the same samples (the first ones) drawn again: see known_findings.json
            if any(sum(s.pic is o.pic for o in out) > 1 and s.pic.twin for s in out): kind_of[pg] = 'same-samples-repeated'
        shown.append(out); marks.append((text, line_of))
    res.sig = [kind, case['seed']]
    res.note = '%s: %d pictures' % (kind, sum(map(len, shown)))
    if not any(shown): res.inc = None; return res
    r = M.convert(res, pdf.tobytes(), len(pdf.pages), res.note)
    if r is None: return res
    for k, (out, (text, line_of), sec, p) in enumerate(zip(shown, marks, r.docx.sections, pdf.pages)):
        check(res, kind, k, out, text, line_of, sec, p, kind_of.get(k))
    return res


def check(res, kind, k, out, text, line_of, sec, p, known=None):
    def bad(key, msg): res.bad(known or key, msg)
    got = []
    where = {}
    L = sim.Layout(sec, lambda q: len({line_of[w] for w in q.text.split() if w in line_of}) or 1)
    placed = {id(P.p): P for P in L.paras}
    for para in docxr.walk(sec.items):
        for im in para.images: got.append((im, im.array(), para))
    # (content right of or below the page has no place in the docx)
    left = list(out)
    for im, px, para in got:
        c = [s for s in left if same(px, s.px, s.pic.exact)]
        if not c:
            bad('pixels:' + kind, 'page %d: a picture of %s pixels, %.1f x %.1f pt, is like none drawn (%s)' % (k, None if px is None else px.shape, im.cx, im.cy, [s.px.shape for s in left]))
            continue
        err = lambda s: abs(im.cx - (s.box[2] - s.box[0])) + abs(im.cy - (s.box[3] - s.box[1]))
        s = min(c, key=err)
        left.remove(s)
        res.count('pictures')
        x0, y0, x1, y1 = s.box
        clip = (max(0, x0), max(0, y0), min(p.w, x1), min(p.h, y1))
        ok = any(abs(im.cx - (b[2] - b[0])) <= 1.1 and abs(im.cy - (b[3] - b[1])) <= 1.1 for b in (s.box,))
        if not ok: bad('size:' + kind, 'page %d: picture of %.2f x %.2f pt instead of %.2f x %.2f' % (k, im.cx, im.cy, x1 - x0, y1 - y0))
        if im.changed: bad('changed:' + kind, 'page %d: picture shown %s' % (k, im.changed))
        if not im.inline and (im.wraps or not im.behind): bad('behind:' + kind, 'page %d: floating picture %s' % (k, 'moves the text' if im.wraps else 'covers the text'))
        if not s.pos: continue
        if not im.inline:
            res.count('positions')
            X = im.x + (0 if im.frame[0] == 'page' else sec.left)
            Y = im.y + (0 if im.frame[1] == 'page' else sec.top)
            if abs(X - x0) > 2 or abs(Y - y0) > 2: bad('float:' + kind, 'page %d: picture at (%.1f, %.1f) from the page edges instead of (%.1f, %.1f)' % (k, X, Y, x0, y0))
        elif kind not in ('float', 'edge'):
            P = placed[id(para)]
            if len(para.images) == 1 and not para.text.strip() and text is not None and kind == 'cell':
                res.count('positions')
                tab = [t for t in para.tabs]
                if abs(P.y0 - y0) > 2.5: bad('y:' + kind, 'page %d: picture at height %.2f instead of %.2f' % (k, P.y0, y0))
                x = P.first_left
                if abs(x - x0) > 2.5 and not (para.align in ('center', 'right') or tab): bad('x:' + kind, 'page %d: picture starts at %.2f instead of %.2f' % (k, x, x0))
            elif len(para.images) == 1 and not para.text.strip():
                res.count('positions')
                if abs(P.y0 - y0) > 2: bad('y:' + kind, 'page %d: picture at height %.2f instead of %.2f' % (k, P.y0, y0))
                x = {'center': (P.left + P.right) / 2 - im.cx / 2, 'right': P.right - im.cx}.get(para.align, P.first_left)
                if abs(x - x0) > 2.5: bad('x:' + kind, 'page %d: picture (%s) starts at %.2f instead of %.2f' % (k, para.align, x, x0))
    off = [s for s in left if s.pic.known]
    if off: res.bad(off[0].pic.known, 'page %d: picture drawn off the page first and on the page later is missing' % k)
    left = [s for s in left if not s.pic.known]
    if left: bad('lost:' + kind, 'page %d: %d of %d pictures are missing: %s' % (k, len(left), len(out), [(s.pic.px.shape, s.box) for s in left][:2]))
    a, b = M.counter_diff(''.join(text), M.squeeze(M.sec_text(sec)))
    if a or b: res.bad('text:' + kind, 'page %d: characters missing %s extra %s' % (k, M.show(a), M.show(b)))
