# -*- coding: utf-8 -*-
'''C05 structure and content of tables with explicit borders'''
import random
from .. import common as M
from .. import docxr, sim
from .. import gen_text as T
from .. import gen_table as G
from ..core import Result
from ..pdfw import Pdf

TITLE = 'Tables with explicit borders keep rows, columns, merged cells, sizes and content'
RULE = ('generated pages with 1-3 ruled tables (1-7 rows, 1-6 columns, random merged cells, borders drawn as unit segments, long lines, thin '
        'rectangles or stroked cell boxes, missing outer borders, shaded and empty cells, nested tables, pictures and paragraphs around); each '
        'drawn table is compared cell by cell with the docx table holding its text; rows and columns of 3.4 to 9 pt included; distinct by seed, non-trivial with at least one table of two cells')
NEED = {'tables': 150, 'cells': 1500, 'merged': 150}


def cases(tier, rnd):
    k = 12 if tier == 'quick' else 50
    return M.mixed(rnd, [(20 * k, {'kind': 'plain'}), (12 * k, {'kind': 'style'}), (10 * k, {'kind': 'nested'}), (8 * k, {'kind': 'rects'}),
                         (8 * k, {'kind': 'open'}), (6 * k, {'kind': 'big'}), (6 * k, {'kind': 'image'}), (6 * k, {'kind': 'thin'}), (4 * k, {'kind': 'vertical'}), (5 * k, {'kind': 'snug'})], enc=.3)


def build(case, pdf=None, page=None, words=None, rnd=None):
    '''-> pdf, page, tables, paragraphs'''
    rnd, kind = rnd or random.Random(case['seed']), case['kind']
    pdf = pdf or Pdf()
    p = page or pdf.page(*rnd.choice(T.SIZES))
    words = words or T.Words(rnd)
    y, tabs, paras = rnd.uniform(50, 80), [], []
    x0, x1 = rnd.uniform(40, 80), p.w - rnd.uniform(40, 80)
    n = 1 if kind == 'big' else rnd.randint(1, 3)
    for _ in range(n):
        if rnd.random() < .8:
            bl = T.flow(p, rnd, words, top=y, bottom=y + 60, left=x0, right=x1, maxlines=2)
            paras += bl
            y = (bl[-1].bottom if bl else y) + rnd.uniform(10, 20)
        kw = dict(style=rnd.choice(('uniform', 'lines')) if kind != 'plain' else 'uniform')
        if kind == 'nested': kw.update(nested=.6, R=rnd.randint(1, 4), C=rnd.randint(1, 3), rowh=(30, 90))
        if kind == 'thin': kw.update(thin=.3, shade=0, widths=(.5, .75, 1.0), R=rnd.randint(3, 7), C=rnd.randint(2, 5), minw=70)   # empty rows and columns to keep distance (a filled one is as well a border)
        if kind == 'snug': kw.update(snug=True, mode=rnd.choice(('span', 'fill')), size=rnd.choice((8, 9, 10, 11)), rowh=(16, 40), fam='helv' if rnd.random() < .5 else None)
        if kind == 'vertical': kw.update(vertical=.5, rowh=(30, 110), R=rnd.randint(2, 4))
        if kind == 'rects': kw.update(mode='rects', style='uniform')
        if kind == 'segments': kw.update(style='segments', mode=rnd.choice(('seg', 'fill')), merge=.5)
        if kind == 'open': kw.update(shade=0, mode=rnd.choice(('seg', 'span', 'fill')), open_=rnd.choice(('v', 'v', 'top', 'bottom')), C=rnd.randint(3, 5), R=rnd.randint(3, 6))
        if kind == 'big': kw.update(R=rnd.randint(8, 25), C=rnd.randint(2, 10), rowh=(14, 26), minw=30, size=7, merge=.15)
        a = x0 + rnd.choice((0, 0, rnd.uniform(0, 60)))
        t = G.lattice(p, rnd, words, a, x1 - rnd.choice((0, 0, rnd.uniform(0, 60))), y, p.h - 50, **kw)
        if t is None: break
        tabs.append(t)
        y = t.ys[-1] + rnd.uniform(10, 20)
        if kind == 'image':
            h = min(rnd.uniform(20, 60), p.h - 60 - y)
            if h > 15:
                im = pdf.add_image(4, 4, bytes(rnd.randrange(256) for _ in range(48)))
                p.image(im, x0, y, x0 + rnd.uniform(30, 120), y + h)
                y += h + rnd.uniform(10, 16)
        if y > p.h - 150: break
    return pdf, p, tabs, paras


def find(tables, t):
    '''the innermost docx table which holds the first word of t'''
    for c in t.cells:
        for x in c.words:
            m = [d for d in tables if any(M.squeeze(c.text).find(x) >= 0 for c in d.cells)]
            return m[-1] if m else None
    return None


def run(case):
    res = Result()
    pdf, p, tabs, paras = build(case)
    res.sig = [case['kind'], case['seed']]
    res.note = '%s: %d tables, %s' % (case['kind'], len(tabs), [(len(t.ys) - 1, len(t.xs) - 1, t.mode) for t in tabs])
    if not tabs: res.inc = 'no table'; return res
    r = M.convert(res, pdf.tobytes(), 1)
    if r is None: return res
    sec = r.docx.sections[0]
    check(res, sec, tabs, paras, where=True)
    outer = [it for it in sec.items if it.kind == 't']
    if len(outer) != len(tabs): res.bad('number', '%d tables in the docx, %d drawn' % (len(outer), len(tabs)))
    return res


def rows(tabs, paras):
    '''paragraph of the docx -> how many rows it takes, given the drawn lines'''
    where, n = {}, 0
    for b in paras + [b for t in tabs for c in t.all_cells() for b in c.blocks]:
        for l in b.lines:
            n += 1
            for x in l.text.split(): where[x] = n
    return lambda q: len({where[x] for x in q.text.split() if x in where}) or 1


def check(res, sec, tabs, paras, where=False):
    allt = list(docxr.all_tables(sec.items))
    L = sim.Layout(sec, rows(tabs, paras))
    for t in tabs:
        one(res, t, allt, L if where else None)


def one(res, t, allt, L=None):
    d = find(allt, t)
    if d is None:
        if any(c.words for c in t.cells): res.bad('none', 'no table holds the text of %s (%s)' % (t.structure(), t.mode))
        return
    res.count('tables'); res.count('mode_' + t.mode)
    if d.structure() != t.structure():
        res.bad('structure', '%s table %dx%d: drawn %s, docx %s' % (t.mode, len(t.ys) - 1, len(t.xs) - 1, t.structure(), d.structure()))
        return
    cw = sim.Layout.columns(d)
    for k, (h, a, b) in enumerate(zip(d.heights, t.ys, t.ys[1:])):
        if not M.close(h, b - a, 2.0 if t.open else 1.3): res.bad('height', 'row %d is %s high instead of %.2f' % (k, h, b - a))
        if k == 0 and not d.fixed: res.bad('layout', 'the widths of the columns depend on the content')
        if d.rules[k] != 'exact': res.bad('rule', 'row height rule %s' % d.rules[k])
    for k, (wd, a, b) in enumerate(zip(cw, t.xs, t.xs[1:])):
        if not M.close(wd, b - a, 2.0 if t.open else 1.0): res.bad('width', 'column %d is %s wide instead of %.2f' % (k, wd, b - a))
    for c in t.cells:
        dc = d.cell(c.r, c.c)
        res.count('cells')
        if c.nr * c.nc > 1: res.count('merged')
        got = M.squeeze(''.join(q.text for q in docxr.walk(dc.items)) if not c.nested else dc.text)
        if got != ''.join(c.words): res.bad('content', 'cell %s holds %r instead of %r' % ((c.r, c.c), got[:80], ''.join(c.words)[:80]))
        if c.nested:
            res.count('nested')
            if len(dc.tables) != 1: res.bad('nested', 'cell %s has %d tables in the docx' % ((c.r, c.c), len(dc.tables)))
            else: one(res, c.nested, dc.tables, L)
        elif dc.tables and len(c.blocks) == 0: res.bad('extra', 'table in the empty cell %s' % ((c.r, c.c),))
    if L is not None:
        tx = 2.6 if t.open else 2.1
        for P in L.cells:
            if P.table is not d: continue
            c = t.cell(P.cell.row, P.cell.col)
            if c is None: continue
            a, b, u, v = t.box(c)
            if abs(P.x0 - a) > tx or abs(P.x1 - u) > tx: res.bad('x', 'cell %s lies at x %.1f-%.1f instead of %.1f-%.1f' % ((c.r, c.c), P.x0, P.x1, a, u)); break
            if abs(P.y0 - b) > 2.5 or abs(P.y1 - v) > 2.5: res.bad('y', 'cell %s lies at y %.1f-%.1f instead of %.1f-%.1f' % ((c.r, c.c), P.y0, P.y1, b, v)); break
