# -*- coding: utf-8 -*-
'''C09 vector graphics'''
import random
import re
import numpy as np
from .. import common as M
from .. import docxr, env, sim
from .. import gen_table as G
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf
from . import c08

TITLE = 'Drawings come out once, as pictures without text'
RULE = ('generated pages of paragraphs with figures (curves, polygons, charts, with and without labels), beside or between text, tables, raster pictures, marks, at page edges; '
        'the pictures of the docx are located in a rendering of the figures alone (PyMuPDF); distinct by case')
NEED = {'figures': 150, 'labels': 60, 'labelled': 20, 'tables': 20, 'plain': 10, 'rasters': 20}


def cases(tier, rnd):
    k = 1 if tier == 'quick' else 25
    return M.mixed(rnd, [(50 * k, {'kind': 'flow'}), (30 * k, {'kind': 'label'}), (30 * k, {'kind': 'table'}), (30 * k, {'kind': 'raster'}), (25 * k, {'kind': 'edge'}),
                         (16 * k, {'kind': 'plain'}), (20 * k, {'kind': 'zoom'}), (20 * k, {'kind': 'pale'}), (12 * k, {'kind': 'pages'})], enc=.3,
                   rots={'table': (0, 180)})     # MuPDF reports no line widths at 90 and 270 degrees, so table lines are thicker than known


class Fig:
    '''a figure: its drawing functions and the box of its points'''

    def __init__(self, box): self.box, self.draws = box, []


DARK = [(0, 0, 0), (.8, .1, .1), (.1, .2, .8), (.1, .5, .2), (.5, .2, .5)]
LIGHT = [(.8, .85, .95), (.95, .85, .75), (.8, .95, .8), (.9, .9, .6)]


PALE = [(.97, .95, .93), (.93, .96, .98), (.95,), (.96, .94, .97), (.92, .98, .92)]
STYLES = ('curves', 'chart', 'polygon', 'star', 'arrow', 'mixed')


def figure(rnd, x0, y0, x1, y1, light=False, styles=STYLES):
    '''Connected paths, all of them inside the box.'''
    f = Fig((x0, y0, x1, y1))
    X, Y = (lambda a: x0 + (x1 - x0) * a), (lambda a: y0 + (y1 - y0) * a)
    fills = LIGHT if light else LIGHT + DARK
    add = lambda fun, *a, **k: f.draws.append((fun, a, k))
    w = rnd.choice((.7, 1, 1.5, 2))
    style = rnd.choice(styles)
    U = rnd.random
    if style == 'curves':
        add('curve', [(x0, y1), (X(.3), y0), (X(.7), y0), (x1, y1)], fill=rnd.choice(fills), stroke=rnd.choice(DARK), width=w)
        for _ in range(rnd.randint(0, 6)): add('curve', [(X(U()), Y(U())) for _ in range(4)], stroke=rnd.choice(DARK), width=w)
    elif style == 'chart':
        add('line', x0, y0, x0, y1, width=w)
        add('line', x0, y1, x1, y1, width=w)
        n = rnd.randint(3, 8)
        pts = [(X(k / n), Y(.05 + .9 * U())) for k in range(n + 1)]
        add('poly', pts, stroke=rnd.choice(DARK), width=w, close=False)
        add('poly', [(a, Y(.05 + .9 * U())) for a, _ in pts], stroke=rnd.choice(DARK), width=w, close=False)
    elif style == 'polygon':
        add('poly', [(x0, Y(.3)), (X(.4), y0), (x1, Y(.5)), (X(.6), y1), (X(.1), Y(.9))], fill=rnd.choice(fills), stroke=rnd.choice(DARK), width=w)
        if U() < .5: add('poly', [(X(.3), Y(.3)), (X(.7), Y(.45)), (X(.5), Y(.8))], fill=rnd.choice(fills))
    elif style == 'star':
        import math
        q = []
        for k in range(10):
            r = .5 if k % 2 == 0 else .22
            q.append((X(.5 + r * math.sin(k * math.pi / 5)), Y(.5 - r * math.cos(k * math.pi / 5))))
        add('poly', q, fill=rnd.choice(fills), stroke=rnd.choice(DARK) if U() < .6 else None, width=w)
    elif style == 'arrow':
        add('line', x0, y1, x1, y0, color=rnd.choice(DARK), width=w)
        add('poly', [(x1, y0), (X(.85), Y(.05)), (X(.95), Y(.2))], fill=rnd.choice(DARK))
        add('line', x0, y0, x1, y1, color=rnd.choice(DARK), width=w)
    elif style == 'pale':
        add('curve', [(x0, y1), (X(U() * .3), Y(-.3)), (X(1 - U() * .3), Y(-.3)), (x1, y1)], fill=rnd.choice(PALE))
        if U() < .6: add('poly', [(X(.3), Y(.5)), (X(.7), Y(.4)), (X(.5), Y(.8))], fill=rnd.choice(PALE))
    else:
        add('rect', x0, y0, x1, y1, fill=rnd.choice(LIGHT), stroke=rnd.choice(DARK), width=w)
        add('curve', [(X(.1), Y(.9)), (X(.1), Y(.1)), (X(.9), Y(.1)), (X(.9), Y(.9))], fill=rnd.choice(LIGHT), stroke=rnd.choice(DARK), width=w)
    return f


def draw(p, f):
    for fun, a, k in f.draws:
        if fun == 'rect': getattr(p, fun)(*a, form='re', **k)
        else: getattr(p, fun)(*a, **k)


def ink_of(ref): return (ref.min(axis=2) < 249)


def render(pdf, n, zoom):
    '''pages as BGR arrays'''
    fitz = env.fitz
    doc = fitz.open('pdf', pdf.tobytes())
    out = []
    for i in range(n):
        x = doc[i].get_pixmap(matrix=fitz.Matrix(zoom, zoom), alpha=False)
        out.append(np.frombuffer(x.samples, np.uint8).reshape(x.height, x.width, 3)[:, :, ::-1].copy())
    doc.close()
    return out


def locate(ref, full, px, cx, cy, zoom):
    '''Where the picture shows what ``ref`` does -> (x, y, mean difference, share of pixels far off), in points'''
    import cv2
    W, H = max(1, round(cx * zoom)), max(1, round(cy * zoom))
    if px.shape[1] != W or px.shape[0] != H: px = cv2.resize(px, (W, H), interpolation=cv2.INTER_AREA)
    pad = 40
    big = cv2.copyMakeBorder(ref, pad, pad, pad, pad, cv2.BORDER_CONSTANT, value=(255, 255, 255))
    if big.shape[0] < H or big.shape[1] < W: return None
    # coarsely first
    f, x0, y0, x1, y1 = max(1, int(zoom)), 0, 0, big.shape[1], big.shape[0]
    if f > 1 and min(W, H) > 4 * f:
        half = lambda a: cv2.resize(a, (a.shape[1] // f, a.shape[0] // f), interpolation=cv2.INTER_AREA)
        d = cv2.matchTemplate(half(big), half(px), cv2.TM_SQDIFF)
        y, x = [v * f for v in np.unravel_index(np.argmin(d), d.shape)]
        m = 3 * f
        x0, y0 = max(0, x - m), max(0, y - m)
        x1, y1 = min(x1, x + W + m), min(y1, y + H + m)
    d = cv2.matchTemplate(big[y0:y1, x0:x1], px, cv2.TM_SQDIFF)
    y, x = np.unravel_index(np.argmin(d), d.shape)
    x, y = x + x0, y + y0
    part = big[y:y + H, x:x + W]
    # up to a pixel of difference in place
    e = np.minimum.reduce([np.abs(np.roll(np.roll(part, i, 0), j, 1).astype(int) - px.astype(int)).max(axis=2) for i in (-1, 0, 1) for j in (-1, 0, 1)])
    e[0, :] = e[-1, :] = 0
    e[:, 0] = e[:, -1] = 0
    # text in the picture?
    other = cv2.copyMakeBorder(full, pad, pad, pad, pad, cv2.BORDER_CONSTANT, value=(255, 255, 255))[y:y + H, x:x + W]
    dist = lambda a: np.abs(a.astype(int) - px.astype(int)).max(axis=2)
    mask = np.abs(part.astype(int) - other.astype(int)).max(axis=2) > 90
    text = bool(mask.sum() > 10) and float((dist(other) < dist(part))[mask].mean())
    return text, (x - pad) / zoom, (y - pad) / zoom, float(np.abs(part.astype(int) - px.astype(int)).mean()), float((e > 70).mean())


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf, only, words, truth = Pdf(), Pdf(), T.Words(rnd), []
    settings = {}
    if kind == 'zoom': settings['clip_image_res_ratio'] = rnd.choice((1.0, 1.5, 2.0, 4.0, 5.0))
    for pg in range(rnd.randint(2, 4) if kind == 'pages' else 1):
        size = rnd.choice(T.SIZES)
        p, o = pdf.page(*size), only.page(*size)
        t = dict(text=[], line_of={}, figs=[], pics=[], tables=[], words=[])
        truth.append(t)
        L, R = rnd.uniform(50, 80), p.w - rnd.uniform(50, 80)

        def text(y, n, left=L, right=R, bottom=None):
            bl = T.flow(p, rnd, words, top=y, bottom=bottom or min(y + n, p.h - 40), left=left, right=right, maxlines=3)
            for b in bl:
                for l in b.lines:
                    t['words'] += l.text.split()
                    for w in l.text.split(): t['line_of'][w] = (b, l.y)
            return bl[-1].bottom if bl else y

        def label(x, y, s, room=60):
            w = words(2, 5)
            while T.width(w, 'helv', s) > room: w = words(2, 3)
            how = rnd.choice(('plain', 'plain', 'plain', 'tr', 'trout', 'form', 'formname', 'td', 'next'))
            if how in ('form', 'formname'):
                name = 'Fm%d' % len(p.res.get('XObject', ())) if how == 'form' else 'BT%dTm' % len(p.res.get('XObject', ()))
                ref = pdf.add_stream('/Type /XObject /Subtype /Form /BBox [0 -20 200 30] /Resources << /Font << /helv << /Type /Font /Subtype /Type1 '
                                     '/BaseFont /Helvetica /Encoding /WinAnsiEncoding >> >> >>', ('BT 0 g /helv %s Tf 0 0 Td (%s) Tj ET' % (s, w)).encode())
                p.res.setdefault('XObject', {})[name] = ref
                p.op('q 1 0 0 1 %.2f %.2f cm /%s Do Q' % (x, p.Y(y), name))
                res.count('text in forms')
            elif how == 'tr': p.text(x, y, w, 'helv', s, tr=0)
            else:
                p.text(x, y, w, 'helv', s)
                o = p.ops[-1].decode()
                if how == 'trout': o = '0 Tr ' + o
                elif how == 'td': o = re.sub(r'1 0 0 1 (\S+) (\S+) Tm', r'\1 \2 Td', o)
                elif how == 'next': o = re.sub(r'1 0 0 1 (\S+) (\S+) Tm(.*)Tj', r'0 TL \1 \2 TD\3 Tj T*', o)
                p.ops[-1] = o.encode()
            t['words'].append(w)
            res.count('labels')

        def fig(x0, y0, x1, y1, light=False):
            f = figure(rnd, x0, y0, x1, y1, light, ('curves', 'polygon', 'star') if kind == 'edge' else ('pale',) if kind == 'pale' else STYLES)
            draw(p, f)
            draw(o, f)
            t['figs'].append(f)
            res.count('figures')

        y = text(50, 90)
        if kind in ('flow', 'zoom', 'pages', 'pale'):
            while y < p.h - 200 and len(t['figs']) < 4:
                w, h = rnd.uniform(40, (R - L) * .8), rnd.uniform(30, 130)
                x = rnd.choice((L, L + rnd.uniform(0, R - L - w), R - w))
                y += 16
                fig(x, y, x + w, y + h)
                if rnd.random() < .25 and x + w + 100 < R:       # a second one beside it
                    fig(x + w + 40, y + rnd.uniform(-3, 3), R, y + h)
                y = text(y + h + 18, 60)
        elif kind == 'label':
            for _ in range(2):
                w, h = rnd.uniform(120, (R - L) * .9), rnd.uniform(70, 160)
                if y + h + 60 > p.h: break
                y += 18
                fig(L, y, L + w, y + h, light=True)
                ls = rnd.choice((6, 7, 8, 9, 10))
                for i in range(rnd.randint(1, 4)): label(L + 10 + rnd.uniform(0, w - 80), y + 16 + i * 14, ls, room=60)
                y = text(y + h + 20, 60)
        elif kind == 'table':
            order = ['t', 'f']
            rnd.shuffle(order)
            for k in order + [rnd.choice('tf')]:
                if y > p.h - 160: break
                if k == 't':
                    left = rnd.choice((L, L, .5, 1.5)) if 't' not in [q[0] for q in t['tables']] else L
                    tab = G.lattice(p, rnd, words, left, R, y + 20, p.h - 60, style=rnd.choice(('uniform', 'lines')), R=rnd.randint(2, 4), C=rnd.randint(2, 4))
                    if tab is None: continue
                    t['tables'].append(('t', tab))
                    t['words'] += [x for c in tab.all_cells() for x in c.words]
                    y = tab.ys[-1]
                    res.count('tables')
                else:
                    w, h = rnd.uniform(60, (R - L) * .8), rnd.uniform(40, 100)
                    if y + h + 60 > p.h: continue
                    fig(L, y + 24, L + w, y + 24 + h)
                    y += h + 24
                y = text(y + 30, 40)
        elif kind == 'raster':
            for _ in range(3):
                w, h = rnd.uniform(40, 150), rnd.uniform(30, 90)
                if y + h + 50 > p.h: break
                y += 18
                x = rnd.choice((L, L, -15.0, 0.0, 1.0))
                a = c08.make(pdf, rnd, plain=True)
                p.image(a.idx, x, y, x + w, y + h)
                t['pics'].append(a)
                res.count('rasters')
                f = rnd.random()
                if f < .5 and x + w + 100 < R: fig(x + w + 40, y, min(R, x + w + 40 + rnd.uniform(50, 150)), y + h)
                y = text(y + h + 20, 40)
                if f > .7 and y + 120 < p.h:
                    fig(L, y + 18, L + 120, y + 80)
                    y = text(y + 100, 40)
            if not t['figs'] and y + 110 < p.h: fig(L, y + 18, L + 120, y + 80)
        elif kind == 'edge':
            w, h = rnd.uniform(60, 140), rnd.uniform(50, 120)
            e = rnd.choice('lrtb')
            if e == 'l': fig(rnd.uniform(-20, 2), y + 20, w, y + 20 + h)
            elif e == 'r': fig(p.w - w, y + 20, p.w + rnd.uniform(-2, 20), y + 20 + h)
            elif e == 'b': fig(L, p.h - 60, L + w, p.h + rnd.uniform(-2, 20))
            else: fig(p.w / 2, rnd.uniform(-15, 2), p.w / 2 + w, 30)
            if e != 'l' and rnd.random() < .7: p.rect(0, 0, rnd.choice((1, 3, 20)), p.h, fill=rnd.choice(DARK + LIGHT))       # a bar along the edge
        elif kind == 'plain':
            # straight lines only: nothing becomes a picture
            for _ in range(rnd.randint(1, 3)):
                w = rnd.uniform(60, 300)
                p.line(L, y + 15, L + w, y + 15, width=rnd.choice((.5, 1, 2)))
                p.rect(L, y + 30, L + w, y + 34, fill=rnd.choice(DARK + LIGHT))
                y = text(y + 50, 50)
            tab = G.lattice(p, rnd, words, L, R, y + 20, p.h - 60) if y < p.h - 120 else None
            if tab is not None: t['words'] += [x for c in tab.all_cells() for x in c.words]
            res.count('plain')
    res.sig = [kind, case['seed']]
    res.note = '%s: %d figures' % (kind, sum(len(t['figs']) for t in truth))
    zoom = settings.get('clip_image_res_ratio', 3.0)
    refs = render(only, len(only.pages), zoom)
    r = M.convert(res, pdf.tobytes(), len(pdf.pages), res.note, kwargs=settings)
    if r is None: return res
    for k, (t, p, ref, full, sec) in enumerate(zip(truth, pdf.pages, refs, render(pdf, len(pdf.pages), zoom), r.docx.sections)):
        check(res, kind, k, t, p, ref, full, sec, zoom)
    return res


def check(res, kind, k, t, p, ref, full, sec, zoom):
    line_of = t['line_of']
    lay = sim.Layout(sec, lambda q: len({line_of[w] for w in q.text.split() if w in line_of}) or 1)
    placed = {id(P.p): P for P in lay.paras}
    left, boxes = list(t['pics']), []
    for para in docxr.walk(sec.items):
        for im in para.images:
            px = im.array()
            c = [s for s in left if c08.same(px, s.px, s.exact)]
            if c:
                left.remove(c[0])
                continue
            if px is None or px.ndim != 3:
                res.bad('pixels:' + kind, 'page %d: unreadable picture' % k)
                continue
            px = px[:, :, :3]
            m = locate(ref, full, px, im.cx, im.cy, zoom)
            if m is None:
                res.bad('size:' + kind, 'page %d: a picture of %.1f x %.1f pt' % (k, im.cx, im.cy))
                continue
            shown, x, y, mean, far = m
            if not ink_of(ref).any() or mean > (10 if zoom < 2 else 6) or far > .012 or not ink_of(px).any():
                res.bad('content:' + kind, 'page %d: a picture of %.1f x %.1f pt does not show what the figures do (mean difference %.1f, %.3f of the pixels are different)' % (k, im.cx, im.cy, mean, far))
                continue
            res.count('found')
            if shown is not False:
                res.count('labelled')
                if shown > .2: res.bad('label:' + kind, 'page %d: text is shown in the picture of a figure' % k)
            if abs(px.shape[1] - im.cx * zoom) > 3 * zoom or abs(px.shape[0] - im.cy * zoom) > 3 * zoom:
                res.bad('resolution:' + kind, 'page %d: %s pixels for %.1f x %.1f pt, ratio %s' % (k, px.shape[:2], im.cx, im.cy, zoom))
            boxes.append((x, y, x + im.cx, y + im.cy))
            if im.changed or not im.inline and (im.wraps or not im.behind): res.bad('shown:' + kind, 'page %d: figure %s' % (k, im.changed or 'moves or covers the text'))
            if not im.inline: X, Y = im.x + (0 if im.frame[0] == 'page' else sec.left), im.y + (0 if im.frame[1] == 'page' else sec.top)
            else:
                P = placed[id(para)]
                if para.text.strip() or len(para.images) > 1: continue
                Y = P.y0
                X = {'center': (P.left + P.right) / 2 - im.cx / 2, 'right': P.right - im.cx}.get(para.align, P.first_left)
            res.count('positions')
            tol = 6.0 if kind in ('edge', 'label') else 3.0      # text may overlap by 5 pt, a page layout has no space left at its edges
            if abs(X - x) > 3 or abs(Y - y) > tol: res.bad('place:' + kind, 'page %d: figure at (%.1f, %.1f) instead of (%.1f, %.1f)' % (k, X, Y, x, y))
    if left: res.bad('raster:' + kind, 'page %d: %d pictures are missing' % (k, len(left)))
    # all of the ink, once
    ink = ink_of(ref)
    cover = np.zeros(ref.shape[:2], int)
    for x0, y0, x1, y1 in boxes:
        a, b, c, d = [max(0, round(v * zoom)) for v in (x0, y0, x1, y1)]
        cover[b:d, a:c] += 1
    n = int(ink.sum())
    if n:
        lost, twice = int((ink & (cover == 0)).sum()), int((ink & (cover > 1)).sum())
        if lost > .02 * n: res.bad('lost:' + kind, 'page %d: %.1f %% of the figures is missing; %d figures, pictures at %s' % (k, 100.0 * lost / n, len(t['figs']), [[round(v) for v in b] for b in boxes]))
        if twice > .02 * n: res.bad('twice:' + kind, 'page %d: %.1f %% of the figures is shown twice' % (k, 100.0 * twice / n))
    a, b = M.counter_diff(''.join(t['words']), M.squeeze(M.sec_text(sec)))
    if a or b: res.bad('text:' + kind, 'page %d: characters missing %s extra %s' % (k, M.show(a), M.show(b)))
    if t['tables']:
        got = [g for g in docxr.all_tables(sec.items)]
        for _, tab in t['tables']:
            if not any(g.structure() == tab.structure() for g in got): res.bad('table:' + kind, 'page %d: table of %dx%d is missing' % (k, len(tab.ys) - 1, len(tab.xs) - 1))
