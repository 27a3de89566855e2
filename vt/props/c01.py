# -*- coding: utf-8 -*-
'''C01 text conservation and reading order'''
import random
from .. import common as M
from .. import gen_text as T
from .. import gen_table as G
from ..core import Result
from ..pdfw import Pdf

TITLE = 'Text is conserved, in reading order'
RULE = ('generated pages (paragraphs of 1-6 lines in several fonts, sizes, leadings and alignments; punctuation and XML-special '
        'characters; CJK; vertical text; incomplete grids; text across the borders of table cells and tables; shaded boxes, frames and tables over each other; lines partly over each other; all of this under and over drawings, pictures, marks and links; pages with tables, fills and pictures); every character is tracked from the PDF that the '
        'harness wrote to the docx read back by an independent reader; a case is distinct by (kind, page size, words, tables, seed) '
        'and non-trivial if it has at least 5 words')
NEED = {'words': 1000, 'pages': 40}
PUNCT = ['&', '<', '>', '"', "'", '&amp;', '</w:t>', ']]>', '(', ')', '[', ']', '{', '}', '%', '$', '#', '@', '!', '?', ';', ':', ',', '.', '/', '\\',
         '*', '+', '=', '~', '^', '|', '_', '`', '€', '£', '§', '©', '®', '°', '±', 'µ', '¶', '…', '–', '—', '‘', '’', '“', '”', '•', '™', '«', '»',
         'é', 'è', 'ü', 'ö', 'ä', 'ß', 'ñ', 'ç', 'Å', 'Ø', '¿', '¡', '0', '1']
HAN = '一丁七万丈三上下不与丐丑专且世丘丙业丛东丝丞丢两严丧个中丰串临丸丹为主丽举乃久么义之乌乍乎乏乐乒乓乔乖乘乙九乞也习乡书买乱乳了予争事二于亏云互五井亚些亡交亥亦产亨亩享京亭亮亲人'


def cases(tier, rnd):
    k = 8 if tier == 'quick' else 40
    return M.mixed(rnd, [(24 * k, {'kind': 'flow'}), (12 * k, {'kind': 'tight'}), (8 * k, {'kind': 'notrail'}), (10 * k, {'kind': 'punct'}),
                         (6 * k, {'kind': 'cjk'}), (10 * k, {'kind': 'mixed'}), (6 * k, {'kind': 'vertical'}), (5 * k, {'kind': 'pages'}),
                         (8 * k, {'kind': 'spread'}), (12 * k, {'kind': 'ragged'}), (12 * k, {'kind': 'across'}), (12 * k, {'kind': 'overlay'}), (8 * k, {'kind': 'overlap'}), (12 * k, {'kind': 'chaos'})], enc=.3)


class Tok:
    '''words which contain punctuation'''
    def __init__(self, rnd, words): self.rnd, self.words, self.out = rnd, words, []

    def __call__(self):
        w = self.words(1, 3)
        r = self.rnd.random()
        p = self.rnd.choice(PUNCT)
        return w if r < .3 else w + p if r < .55 else p + w if r < .7 else p + w + self.rnd.choice(PUNCT) if r < .9 else w + p + self.words(1, 2)


def spread(page, rnd, words):
    '''lines whose parts are far apart: label .... value'''
    y, out = rnd.uniform(50, 90), []
    size, f = rnd.choice((9, 10, 11, 12)), rnd.choice(('helv', 'tiro'))
    while y < page.h - 80:
        x, a = rnd.uniform(50, 60), []
        for _ in range(rnd.randint(1, 4)):
            s = ' '.join(words() for _ in range(rnd.randint(1, 2))) + ' '
            if x + T.width(s, f, size) > page.w - 50: break
            page.text(x, y, s, f, size)
            a += s.split()
            x += T.width(s, f, size) + rnd.uniform(15, 90)
        out += a
        y += size * rnd.uniform(1.3, 2.4)
    return out


def ragged(page, rnd, words):
    '''grids whose inner lines are incomplete (L-shaped regions, dangling lines): nothing a docx table can show exactly, but no text may get lost'''
    out, top = [], rnd.uniform(50, 90)
    while top < page.h - 250:
        X, Y = [rnd.uniform(50, 80)], [top]
        for _ in range(rnd.randint(2, 5)):
            if X[-1] < page.w - 170: X.append(X[-1] + rnd.choice((80, 100, 120)))
        for _ in range(rnd.randint(2, 5)): Y.append(Y[-1] + rnd.choice((24, 30, 40)))
        for i in range(len(Y) - 1):
            for j in range(len(X) - 1):
                w = words(1, 2)
                page.text(X[j] + 6, Y[i] + rnd.uniform(14, 18), w, 'helv', rnd.choice((8, 9, 10)))
                out.append(w)
        keep, width = rnd.choice((.4, .6, .75, .9)), rnd.choice((.5, 1, 2))
        for i, y in enumerate(Y):
            for j in range(len(X) - 1):
                if i in (0, len(Y) - 1) or rnd.random() < keep: page.line(X[j], y, X[j + 1], y, width=width)
        for j, x in enumerate(X):
            for i in range(len(Y) - 1):
                if j in (0, len(X) - 1) or rnd.random() < keep: page.line(x, Y[i], x, Y[i + 1], width=width)
        if rnd.random() < .3:
            y = rnd.uniform(Y[0] + 4, Y[-1] - 4)
            page.line(X[0], y, X[0] + rnd.choice((5, 8)), y, width=width)
        top = Y[-1] + rnd.uniform(15, 40)
    return out


def across(page, rnd, words):
    '''tables whose text comes close to the borders of the cells, or crosses these or those of the table'''
    out, top = [], rnd.uniform(60, 90)
    while top < page.h - 300:
        X, Y = [rnd.uniform(50, 110)], [top]
        for _ in range(rnd.randint(1, 5)):
            if X[-1] < page.w - 200: X.append(X[-1] + rnd.choice((20, 40, 80, 120, 300)))
        X = [x for x in X if x < page.w - 60]
        if len(X) < 2: X.append(X[0] + 200)
        for _ in range(rnd.randint(2, 5)): Y.append(Y[-1] + rnd.choice((16, 24, 40, 150)))
        Y = [y for y in Y if y < page.h - 50]
        size, fonts = rnd.choice((7, 8, 9, 10)), rnd.choice((('helv',), ('tiro',), ('helv', 'tiro', 'cobo')))
        y = Y[0] + rnd.uniform(-2, size)
        while y < Y[-1] + 4:
            x = X[0] + rnd.choice((rnd.uniform(-12, 12), rnd.uniform(3, 60)))
            while x < X[-1] + 2:
                f = rnd.choice(fonts)
                w = ' '.join(words(1, 2) for _ in range(rnd.choice((1, 1, 2, 5))))
                if rnd.random() < .4:      # up to shortly before or behind a border
                    e = [v for v in X if v > x + T.width(w, f, size)]
                    if e: x = max(x, e[0] - T.width(w, f, size) + rnd.uniform(-4, 4))
                if x + T.width(w, f, size) > page.w - 20: break
                page.text(x, y, w, f, size)
                out += w.split()
                x += T.width(w, f, size) + rnd.choice((4, 8, rnd.uniform(3, 100)))
            y += size * rnd.choice((1.25, 1.25, 2, 4))
        width = rnd.choice((.5, 1, 2))
        for v in Y: page.line(X[0], v, X[-1], v, width=width)
        for v in X: page.line(v, Y[0], v, Y[-1], width=width)
        top = max(Y[-1], y) + rnd.uniform(15, 40)
    return out


def overlay(page, rnd, words):
    '''shaded boxes, frames and ruled tables which overlap at random, with text all over'''
    taken, out = [], []
    cols = rnd.sample([(1, 1, 0), (.8, .9, 1), (.7, 1, .7), (1, .8, .8), (.6, .6, .9), (.9, .5, .2), (.5, .9, .9), (.7, .7, .7)], 8)
    grid = rnd.random() < .5
    X, Y = [72, 200, 330, 460], [100, 180, 260, 340]
    for k in range(9 if grid else rnd.randint(1, 8)):
        if grid and rnd.random() < .25: continue
        x, y = rnd.uniform(50, page.w - 150), rnd.uniform(60, page.h - 200)
        box = (X[k % 3], Y[k // 3], X[k % 3 + 1], Y[k // 3 + 1]) if grid else (x, y, x + rnd.uniform(20, 300), y + rnd.uniform(15, 160))
        how = 'fill' if grid else rnd.choice(('fill', 'fill', 'both', 'stroke'))
        page.rect(*box, **({'fill': cols[k % 8]} if how != 'stroke' else {}), **({'stroke': (0, 0, 0), 'width': rnd.choice((.5, 1))} if how != 'fill' else {}))
    for _ in range(rnd.randint(0, 2) if not grid else 1):
        x, y = rnd.uniform(60, max(70, page.w - 330)), rnd.uniform(80, page.h - 250)
        if grid: x, y = rnd.uniform(80, min(300, page.w - 120)), rnd.uniform(105, 250)
        if any(a < x + 265 and x < c + 15 and b < y + 165 and y < d + 15 for a, b, c, d in taken): continue
        t = G.lattice(page, rnd, words, x, min(x + rnd.uniform(80, 250), page.w - 30), y, y + 150, R=rnd.randint(1, 3), C=2, shade=rnd.choice((0, .5)), size=7, style='uniform', p_empty=0, minw=30)
        if t is None: continue
        taken.append((t.xs[0], t.ys[0], t.xs[-1], t.ys[-1]))
        out += [w for c in t.cells for w in c.words]
    for _ in range(rnd.randint(10, 60)):
        w, size = words(1, 3), rnd.choice((8, 9, 10))
        x, y = (rnd.choice(X[:3]) + 5, rnd.choice(Y) - 8) if grid and rnd.random() < .5 else (rnd.uniform(50, page.w - 100), rnd.uniform(60, page.h - 60))
        box = x, y - size, x + T.width(w, 'helv', size), y + 3
        if any(a < box[2] + 4 and box[0] < c + 4 and b < box[3] + 3 and box[1] < d + 3 for a, b, c, d in taken): continue
        if box[2] > page.w - 10: continue
        taken.append(box)
        page.text(x, y, w, 'helv', size)
        out.append(w)
    return out


def chaos(page, rnd, words, pdf):
    '''as overlay, with drawings, pictures, strokes and links at random places'''
    from . import c09
    def things():
        for _ in range(rnd.randint(0, 3)):
            w, h = rnd.uniform(30, 250), rnd.uniform(20, 200)
            x, y, r = rnd.uniform(30, page.w - 30 - w), rnd.uniform(40, page.h - 40 - h), rnd.random()
            if r < .35: c09.draw(page, c09.figure(rnd, x, y, x + w, y + h))
            elif r < .6: page.image(pdf.add_image(4, 4, bytes(rnd.randrange(256) for _ in range(48))), x, y, x + w, y + h)
            elif r < .9:
                if rnd.random() < .5: page.line(x, y, x + w, y, rnd.choice(G.COLORS), rnd.choice((.5, 1, 3, 8)))
                else: page.line(x, y, x, y + h, rnd.choice(G.COLORS), rnd.choice((.5, 1, 3, 8)))
            else: page.link(x, y, x + w, y + h, 'http://example.com/%d' % rnd.randrange(99))
    things()
    out = overlay(page, rnd, words)
    things()
    return out


def overlap(page, rnd, words):
    '''lines of which up to .7 is covered by another one (.9 is the documented limit)'''
    taken, out, pairs = [], [], set()
    area = lambda b: (b[2] - b[0]) * (b[3] - b[1])
    for _ in range(rnd.randint(5, 40)):
        s, size = ' '.join(words() for _ in range(rnd.randint(1, 6))), rnd.choice((8, 10, 12, 16))
        w = T.width(s, 'helv', size)
        if w > page.w - 110: continue
        x, y = rnd.uniform(50, page.w - 50 - w), rnd.uniform(60, page.h - 60)
        if taken and rnd.random() < .5:
            a = rnd.choice(taken)
            x, y = a[0] + rnd.uniform(-30, 60), a[3] - 3 + rnd.uniform(-size, size)
        if x < 20 or x + w > page.w - 20 or not 40 < y < page.h - 40: continue
        b = (x, y - size, x + w, y + .3 * size)
        cover = [(max(0, min(a[2], b[2]) - max(a[0], b[0]) + 4) * max(0, min(a[3], b[3]) - max(a[1], b[1]) + 4) / min(area(a), area(b)), i) for i, a in enumerate(taken)]
        cover = [(v, i) for v, i in cover if v > 0]
        if len(cover) > 1 or any(v > .7 or i in pairs for v, i in cover): continue      # pairs only: joined lines may cover a third one
        pairs.update([len(taken)] + [i for _, i in cover] if cover else [])
        taken.append(b)
        page.text(x, y, s, 'helv', size)
        out += s.split()
    return out


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf, exp, ordered, sepword = Pdf(), [], True, True
    npages = rnd.randint(2, 4) if kind == 'pages' else 1
    for _ in range(npages):
        p = pdf.page(*rnd.choice(T.SIZES))
        words, lines = T.Words(rnd), []
        words.n = 400 * len(pdf.pages)
        if kind in ('flow', 'tight', 'notrail', 'pages'):
            bl = T.flow(p, rnd, words, tight=kind == 'tight', mix=rnd.random() < .6, trailing=kind != 'notrail',
                        colors=(T.BLACK,) if rnd.random() < .5 else ((0, 0, 0), (1, 0, 0), (0, 0, 1)))
            lines = [l for b in bl for l in b.lines]
            w = [x for l in lines for x in l.text.split()]
            sepword = True
        elif kind == 'punct':
            tok, bl, y = Tok(rnd, words), [], rnd.uniform(40, 80)
            fam = rnd.choice(tuple(T.FAMILY))
            while True:
                size, n = rnd.choice((9, 10, 11, 12)), rnd.randint(1, 5)
                if y + n * size * 1.45 > p.h - 60: break
                b = T.paragraph(rnd, words, 60, p.w - 60, y, n, size, T.fonts_of(rnd, fam, True), lead=size * 1.4, tok=tok)
                if b is None: break
                T.draw(p, b); bl.append(b)
                y = b.bottom + rnd.uniform(5, 20)
            lines = [l for b in bl for l in b.lines]
            w = [x for l in lines for x in l.text.split()]
        elif kind == 'cjk':
            y, w = rnd.uniform(50, 80), []
            while y < p.h - 80:
                size, n = rnd.choice((9, 10.5, 12, 14)), rnd.randint(1, 4)
                m = int((p.w - 140) / size)
                for i in range(n):
                    if y > p.h - 70: break
                    s = ''.join(rnd.choice(HAN) for _ in range(m if i < n - 1 else rnd.randint(3, m)))
                    p.text(70, y, s, 'song', size)
                    w.append(s); y += size * 1.4
                y += rnd.uniform(6, 20)
            sepword = False
        elif kind == 'mixed':
            w, y, ordered, sepword = [], rnd.uniform(45, 70), False, False
            im = pdf.add_image(4, 4, bytes(rnd.randrange(256) for _ in range(48)))
            while y < p.h - 150:
                r = rnd.random()
                if r < .45:
                    bl = T.flow(p, rnd, words, top=y, bottom=min(y + rnd.uniform(30, 90), p.h - 60), left=60, right=p.w - 60)
                    if not bl: y += 20; continue
                    w += [x for b in bl for l in b.lines for x in l.text.split()]
                    y = bl[-1].bottom + rnd.uniform(10, 25)
                elif r < .8:
                    t = G.lattice(p, rnd, words, 60, p.w - 60, y, p.h - 60, R=rnd.randint(1, 4), nested=.4)
                    if t is None: y += 30; continue
                    w += [x for c in t.all_cells() for x in c.words]
                    y = t.ys[-1] + rnd.uniform(12, 25)
                else:
                    h = rnd.uniform(20, 70)
                    x = rnd.uniform(60, p.w - 200)
                    p.image(im, x, y, x + rnd.uniform(30, 120), y + h)
                    y += h + rnd.uniform(10, 20)
        elif kind == 'vertical':
            bl = T.flow(p, rnd, words, top=50, bottom=p.h / 3)
            w, ordered, sepword = [x for b in bl for l in b.lines for x in l.text.split()], False, False
            x = rnd.uniform(80, 150)
            for _ in range(rnd.randint(1, 3)):
                for i in range(rnd.randint(1, 3)):
                    s = ' '.join(words() for _ in range(rnd.randint(1, 4)))
                    p.text(x, rnd.uniform(p.h - 120, p.h - 60), s, 'helv', 11, vertical=True)
                    w += s.split(); x += 15
                x += rnd.uniform(30, 90)
        elif kind == 'ragged':
            w, ordered, sepword = ragged(p, rnd, words), False, False
        elif kind == 'overlay':
            w, ordered, sepword = overlay(p, rnd, words), False, False
        elif kind == 'overlap':
            w, ordered, sepword = overlap(p, rnd, words), False, False
        elif kind == 'chaos':
            w, ordered, sepword = chaos(p, rnd, words, pdf), False, False
        elif kind == 'across':
            w, ordered, sepword = across(p, rnd, words), False, False
        else:
            w, ordered, sepword = spread(p, rnd, words), False, False
        exp.append((w, list({tuple(x for l in o for x in l.text.split()): 1 for o in M.orders(lines, p)}) if lines else [tuple(w)]))
    if sum(len(w) for w, _ in exp) < 5: res.inc = 'empty page'; return res
    r = M.convert(res, pdf.tobytes(), npages)
    res.sig = [kind, case['seed']]
    res.note = '%s: %d words on %d pages' % (kind, sum(len(w) for w, _ in exp), npages)
    if r is None: return res
    for k, ((w, alt), sec) in enumerate(zip(exp, r.docx.sections)):
        got = M.sec_text(sec, '\n')
        if len(alt) > 1:
            res.count('two_columns_possible')
            w = next((a for a in alt if M.squeeze(''.join(a)) == M.squeeze(got)), w)
        res.count('words', len(w)); res.count('kind_' + kind)
        if any(x not in '' and ord(x) < 32 and x not in '\n\t' for x in got): res.bad('control', 'control characters')
        if ordered and sepword:
            g = got.split()
            if g != list(w): res.bad('words:' + kind, 'page %d: %s' % (k, M.diff(w, g)))
        if ordered:
            a, b = M.squeeze(''.join(w)), M.squeeze(got)
            if a != b:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                res.bad('chars:' + kind, 'page %d char %d: expected ...%r got ...%r' % (k, i, a[max(0, i - 20):i + 20], b[max(0, i - 20):i + 20]))
        else:
            # every word exactly once
            s = M.squeeze(got)
            for x in w if kind not in ('across', 'overlay', 'overlap', 'chaos') else ():     # a word may lie in two cells
                n = s.count(M.squeeze(x))
                if n != 1: res.bad('count:' + kind, 'page %d: word %r occurs %d times' % (k, x, n)); break
            a, b = M.counter_diff(M.squeeze(''.join(w)), s)
            if a or b: res.bad('multiset:' + kind, 'page %d: missing %s extra %s' % (k, M.show(a), M.show(b)))
    return res
