# -*- coding: utf-8 -*-
'''C07 borderless tables'''
import random
from .. import common as M
from .. import docxr
from .. import gen_table as G
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf
from . import c08, c20

TITLE = 'Borderless tables keep rows, columns and places'
RULE = ('generated pages with grids of text without borders (2-6 columns of different alignment and width, empty cells, cells of several lines, shaded rows, pictures in cells, cells over '
        'several columns) between paragraphs; the docx is laid out by a simulator, every line compared with where it was drawn, extracted tables with the grid, visible borders and shaded cells with the rules and backgrounds drawn; distinct by case')
NEED = {'grids': 100, 'cells': 2000, 'full grids': 60, 'segments': 500, 'shades': 500, 'rules': 60, 'fills': 60}


def cases(tier, rnd):
    k = 5 if tier == 'quick' else 50
    return M.mixed(rnd, [(24 * k, {'kind': 'plain'}), (14 * k, {'kind': 'lines'}), (12 * k, {'kind': 'holes'}), (10 * k, {'kind': 'shaded'}), (10 * k, {'kind': 'rules'}), (10 * k, {'kind': 'picture'}), (10 * k, {'kind': 'span'}),
                         (8 * k, {'kind': 'part'}), (8 * k, {'kind': 'patch'})], enc=.3)


COLORS = (0, 0, 0), (0, 0, 0), (.8, 0, 0), (0, 0, .6), (.5, .5, .5)


class Grid:
    def __init__(self): self.cells, self.x0, self.x1, self.y0, self.y1 = {}, 0, 0, 0, 0


def grid(p, pdf, rnd, words, x0, x1, y, bottom, kind, t):
    '''draws a grid -> Grid or None'''
    g = Grid()
    g.rules, g.fills = [], []
    n = rnd.randint(2, 5)
    cuts = [rnd.uniform(.7, 1.3) for _ in range(n)]
    xs = [x0]
    for c in cuts: xs.append(xs[-1] + (x1 - x0) * c / sum(cuts))
    size = rnd.choice((7, 8, 9))
    fam = rnd.choice(tuple(T.FAMILY))
    fonts = T.fonts_of(rnd, fam, False)
    h = sum(T.vmetrics(size, fonts[0]))
    aligns = [rnd.choice(('left', 'left', 'right', 'center')) for _ in range(n)]
    step = h * rnd.uniform(1.1, 2.2) + (4 if kind in ('rules', 'part') else 0)
    gap = rnd.uniform(15, 24)                 # MuPDF joins texts at smaller distances to one line
    r, start = 0, y
    rows = []
    for r in range(rnd.randint(2, 9)):
        k = [1] * n
        if kind == 'lines': k = [rnd.choice((1, 1, 2, 3)) for _ in range(n)]
        lead = h * 1.05
        rowh = lead * (max(k) - 1) + h
        pics = {}
        if kind == 'picture':
            for j in range(n):
                if rnd.random() < .25: pics[j] = c08.make(pdf, rnd), rnd.uniform(12, min(60, (x1 - x0) / n - gap)), rnd.uniform(10, 40)
            rowh = max([rowh] + [q[2] for q in pics.values()])
        if y + rowh > bottom: break
        g.fill = None
        if kind == 'shaded' and rnd.random() < .6:
            f = x0 - 3, y - 2, x1 + 3, y + rowh + 2, rnd.choice(((.85, .9, 1), (.9, .9, .9), (1, .9, .8)))
            g.fills.append((r, 0, n) + f)
            p.rect(*f[:4], fill=f[4])
        if kind == 'patch' and rnd.random() < .5:
            a = rnd.randrange(n)
            b = rnd.randint(a + 1, n)
            f = xs[a] + rnd.uniform(0, 3), y - 2, xs[b] - rnd.uniform(0, 3), y + rowh + 2, rnd.choice(((.85, .9, 1), (.9, .9, .9), (1, .9, .8)))
            g.fills.append((r, a, b) + f)
            p.rect(*f[:4], fill=f[4])
        if kind == 'rules' and (r == 0 or rnd.random() < .4):
            w, color = rnd.choice((.5, 1)), rnd.choice(COLORS)
            g.rules.append((r, 0, n, x0 - 2, x1 + 2, y - 3, w, color, x0, x1))
            p.line(x0 - 2, y - 3, x1 + 2, y - 3, color, w)
        if kind == 'part' and r > 0 and rnd.random() < .5:      # outer borders are of one piece
            a = rnd.randrange(n)
            b = rnd.randint(a + 1, n)
            w, xa, xb, color = rnd.choice((.5, 1)), xs[a] + rnd.uniform(0, 3), xs[b] - rnd.uniform(0, 3), rnd.choice(COLORS)
            g.rules.append((r, a, b, xa, xb, y - 3, w, color, xs[max(0, a - 1)], xs[min(n, b + 1)]))
            p.line(xa, y - 3, xb, y - 3, color, w)
        wide = {}
        if kind == 'span' and n > 2 and rnd.random() < .4:
            a = rnd.randrange(n - 1)
            wide[a] = rnd.randint(2, n - a)
        for j in range(n):
            if j in pics:
                q, w, d = pics[j]
                x = {'left': xs[j] + gap / 2, 'right': xs[j + 1] - gap / 2 - w, 'center': (xs[j] + xs[j + 1] - w) / 2}[aligns[j]]
                p.image(q.idx, x, y, x + w, y + d)
                t.append(c08.Shown(q, x, y, x + w, y + d))
                continue
            if any(i < j < i + m for i, m in wide.items()): continue
            if kind == 'holes' and rnd.random() < .3 and (r > 0 or j > 0): continue
            a, b = xs[j] + gap / 2, xs[j + wide.get(j, 1)] - gap / 2
            bl = T.paragraph(rnd, words, a, b, y, k[j], size, fonts, 'center' if j in wide else aligns[j], lead, 0.0, trailing=False, full=(.6, 1.0), last=(.3, .9))
            if bl is None: continue
            T.draw(p, bl)
            g.cells[r, j] = bl
        y += rowh + (step - h)
        rows.append(y)
    if not g.cells: return None
    g.x0, g.x1, g.y0, g.y1, g.n = x0, x1, start, max([b.bottom for b in g.cells.values()] + [q.box[3] for q in t]), n
    g.rows = max(r for r, _ in g.cells) + 1
    return g


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf, words = Pdf(), T.Words(rnd)
    p = pdf.page(*rnd.choice(T.SIZES))
    L, R = rnd.uniform(40, 80), p.w - rnd.uniform(40, 80)
    y, grids, paras, t = rnd.uniform(45, 90), [], [], []
    while y < p.h - 160 and len(grids) < (1 if kind in ('part', 'patch') else 3):
        if rnd.random() < .8:
            bl = T.flow(p, rnd, words, top=y, bottom=y + 70, left=L, right=R, aligns=('left', 'justify'), maxlines=4, sizes=(9, 10, 11))
            paras += bl
            y = (bl[-1].bottom if bl else y) + rnd.uniform(10, 24)
        g = grid(p, pdf, rnd, words, L + rnd.choice((0, rnd.uniform(0, 30))), R - rnd.choice((0, rnd.uniform(0, 60))), y, p.h - 60, kind, t)
        if g is None: break
        grids.append(g)
        y = g.y1 + rnd.uniform(12, 26)
        res.count('grids'); res.count('cells', len(g.cells))
    bl = T.flow(p, rnd, words, top=y, bottom=min(y + 60, p.h - 40), left=L, right=R, aligns=('left',), maxlines=3, sizes=(9, 10, 11))
    paras += bl
    res.sig = [kind, case['seed']]
    if not grids: res.inc = 'no grid'; return res
    r = M.convert(res, pdf.tobytes(), 1)
    if r is None: return res
    sec = r.docx.sections[0]
    if not all(t.fixed for t in docxr.all_tables(sec.items)): res.bad('layout', 'the widths of the columns depend on the content')
    inner = [b for g in grids for b in g.cells.values()]
    L = c20.check(res, sec, paras + inner, p, tolx=1.8, toly=3.6)      # heights are rounded to .1 pt, which adds up over a table
    if t:
        lines = [l for b in paras + inner for l in b.lines]
        c08.check(res, 'grid', 0, t, [w for l in lines for w in l.text.split()], {w: id(l) for l in lines for w in l.text.split()}, sec, p)
    ink(res, L, grids, kind, case.get('enc', {}).get('rot', 0) % 180 == 0)      # widths of rules are lost at 90 and 270 degrees
    own = {w: c for t in docxr.all_tables(sec.items) for c in t.cells for q in c.paras for w in q.text.split()}
    for g in grids:
        # text in several columns: as table
        if kind in ('holes', 'lines') or len(g.cells) < g.n * g.rows: continue
        res.count('full grids')
        at = {k: own.get(b.lines[0].text.split()[0]) for k, b in g.cells.items()}
        for (r, j), c in at.items():
            if c is None: res.bad('no-cell', 'text %r of row %d column %d of a grid %d x %d is not in a table' % (g.cells[r, j].lines[0].text[:30], r, j, g.rows, g.n)); break
            if any(at[r, i] is c for i in range(j)): res.bad('shared', 'texts in different columns share a cell: %r' % (c.text[:100])); break
    return res


NEAR = 4.0
visible = lambda b: b is not None and b[0] and b[1] != 'FFFFFF' and b[2] not in (None, 'nil', 'none')


def ink(res, L, grids, kind, wide=True):
    '''rules and shading of the grid <-> borders and shading of the cells, where the docx has them'''
    segs, shades = [], []
    for q in L.cells:
        if q.cell.dir == 'btLr': continue
        for side, x0, y0, x1, y1 in (('top', q.x0, q.y0, q.x1, q.y0), ('bottom', q.x0, q.y1, q.x1, q.y1), ('start', q.x0, q.y0, q.x0, q.y1), ('end', q.x1, q.y0, q.x1, q.y1)):
            b = q.cell.borders.get(side)
            if visible(b): segs.append((x0, y0, x1, y1, b, q.cell))
        if q.cell.shd not in (None, 'FFFFFF'): shades.append((q.x0, q.y0, q.x1, q.y1, q.cell.shd, q.cell))
    part = lambda a, b, n, f: sum(1 for i in range(n) if f(a + (b - a) * (i + .5) / n)) / n
    rules, fills = [m for g in grids for m in g.rules], [m for g in grids for m in g.fills]
    for x0, y0, x1, y1, b, c in segs:
        res.count('segments')
        if x0 == x1: res.bad('upright', 'vertical border %s at x=%.1f of the cell with %r though none is drawn' % (b[:2], x0, c.text[:30])); continue
        near = [m for m in rules if abs(m[5] - y0) < NEAR]
        d = part(x0, x1, 40, lambda x: any(m[8] - NEAR <= x <= m[9] + NEAR for m in near))
        if d < .2: res.bad('rule-extra', 'border %s at y=%.1f from %.1f to %.1f of the cell with %r; the page has a rule at %.0f %% of it' % (b[:2], y0, x0, x1, c.text[:30], d * 100))
        elif not any((not wide or abs(m[6] - b[0]) < .13) and G.same_color(b[1], m[7]) for m in near): res.bad('rule-style', 'border %s at y=%.1f instead of %s' % (b[:2], y0, [m[6:8] for m in near]))
    for x0, y0, x1, y1, color, c in shades:
        res.count('shades')
        n = part(x0, x1, 20, lambda x: part(y0, y1, 5, lambda y: any(m[3] - NEAR <= x <= m[5] + NEAR and m[4] - NEAR <= y <= m[6] + NEAR and G.same_color(color, m[7]) for m in fills)) > .5)
        if n < .5: res.bad('shade-extra', 'cell with %r at %s is shaded %s; the page is shaded at %.0f %% of it' % (c.text[:30], [round(v, 1) for v in (x0, y0, x1, y1)], color, n * 100))
    for g in grids:
        # a rule or a background of a single line is no part of a table
        ok = {r for r in range(g.rows) if sum(1 for i, _ in g.cells if i == r) > 1}
        if len(g.cells) < g.n * g.rows: continue      # empty cells belong to the neighbours
        res.count('drawn')
        for r, a, b, x0, x1, y, w, color, _, _ in g.rules:
            if r not in ok or kind == 'part' and g.n == 2: continue      # two columns may be columns of text
            res.count('rules')
            d = part(x0, x1, 40, lambda x: any(s[1] == s[3] and abs(s[1] - y) < NEAR and s[0] <= x <= s[2] for s in segs))
            if d < .7: res.bad('rule-lost', 'rule at y=%.1f from %.1f to %.1f (row %d of %d, columns %d to %d of %d): borders at %.0f %% of it' % (y, x0, x1, r, g.rows, a, b, g.n, d * 100))
        for r, a, b, x0, y0, x1, y1, color in g.fills:
            if r not in ok: continue
            res.count('fills')
            d = part(x0, x1, 40, lambda x: part(y0, y1, 5, lambda y: any(s[0] <= x <= s[2] and s[1] <= y <= s[3] and G.same_color(s[4], color) for s in shades)) > .5)
            if d < .6: res.bad('shade-lost', 'background of row %d of %d, columns %d to %d of %d: cells are shaded at %.0f %% of it' % (r, g.rows, a, b, g.n, d * 100))
