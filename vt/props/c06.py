# -*- coding: utf-8 -*-
'''C06 borders and shading of tables with explicit borders'''
import random
from .. import common as M
from .. import docxr
from .. import gen_table as G
from ..core import Result
from . import c05

TITLE = 'Table cells keep their borders (presence, width, colour) and shading'
RULE = ('generated pages with 1-3 ruled tables; every line of a table has its own width (0.5-3 pt) and colour (or all the same), cells are shaded at '
        'random, outer borders may be missing; for every cell of the docx table the four borders and the shading are compared with what was drawn; '
        'distinct by seed, non-trivial with at least one table')
NEED = {'borders': 3000, 'shaded': 300, 'unshaded': 500, 'missing': 40, 'vertical': 60}


def cases(tier, rnd):
    k = 12 if tier == 'quick' else 60
    return M.mixed(rnd, [(20 * k, {'kind': 'style'}), (8 * k, {'kind': 'plain'}), (6 * k, {'kind': 'rects'}), (6 * k, {'kind': 'open'}), (10 * k, {'kind': 'segments'}),
                         (4 * k, {'kind': 'nested'}), (3 * k, {'kind': 'big'}), (6 * k, {'kind': 'vertical'})], enc=.3, rots=(0, 180))


def run(case):
    res = Result()
    pdf, p, tabs, paras = c05.build(case)
    res.sig = [case['kind'], case['seed']]
    if not tabs: res.inc = 'no table'; return res
    r = M.convert(res, pdf.tobytes(), 1)
    if r is None: return res
    allt = list(docxr.all_tables(r.docx.sections[0].items))
    for t in tabs:
        one(res, t, allt)
        for c in t.all_cells():
            if c.nested: one(res, c.nested, allt)
    res.note = '%s: %s' % (case['kind'], res.n)
    return res


def one(res, t, allt):
    d = c05.find(allt, t)
    if d is None or d.structure() != t.structure():
        res.count('unmatched')      # C05
        return
    res.count('tables')
    n, m = len(t.ys) - 1, len(t.xs) - 1
    for c in t.cells:
        dc, at = d.cell(c.r, c.c), '%s cell %s' % (t.mode, (c.r, c.c))
        # shading
        if c.fill is None:
            res.count('unshaded')
            if dc.shd not in (None, 'FFFFFF'): res.bad('shade', '%s: shaded %s though it is not' % (at, dc.shd))
        else:
            res.count('shaded')
            if not G.same_color(dc.shd, c.fill): res.bad('unshaded' if dc.shd is None else 'colour', '%s: shading %s instead of %s' % (at, dc.shd, c.fill))
        # text direction
        if c.vertical: res.count('vertical')
        if c.words and dc.dir not in (('btLr',) if c.vertical else (None, 'lrTb')):
            res.bad('direction', '%s: text direction %s though the text runs %s' % (at, dc.dir, 'upwards' if c.vertical else 'horizontally'))
        # borders
        for side, st, out in (('top', t.hstyle[c.r], t.open == 'top' and c.r == 0), ('bottom', t.hstyle[c.r + c.nr], t.open == 'bottom' and c.r + c.nr == n),
                              ('start', t.vstyle[c.c], t.open == 'v' and c.c == 0), ('end', t.vstyle[c.c + c.nc], t.open == 'v' and c.c + c.nc == m)):
            b = dc.borders.get(side)
            if t.mode == 'rects': st = t.hstyle[0]
            on = b is not None and b[0] > 0 and b[2] not in ('nil', 'none')
            styles = t.side(c, side) if t.segstyle else {st}
            if len(styles) > 1:
                # the neighbours have the borders; no part may be overridden
                res.count('several styles')
                if side in ('start', 'end'):
                    parts = [(x.borders.get(side), t.segstyle['v', x.row, c.c if side == 'start' else c.c + c.nc]) for x in d.all_cells if x.col == c.c and c.r <= x.row < c.r + c.nr]
                else: parts = [(b, s) for s in styles]
                for x, s in parts:
                    if x is not None and x[0] > 0 and x[2] not in ('nil', 'none') and (abs(x[0] - s[0]) > .26 or not G.same_color(x[1], s[1])):
                        res.bad('several' if not G.same_color(x[1], s[1]) else 'several-width', '%s: %s border %s although it is drawn as %s' % (at, side, x, sorted(styles))); break
                continue
            st = min(styles)
            if out:
                res.count('missing')
                if on and b[1] != 'FFFFFF': res.bad('ghost', '%s: %s border %s which was not drawn' % (at, side, b))
                continue
            res.count('borders')
            if not on: res.bad('border', '%s: no %s border, drawn %s' % (at, side, st)); continue
            if t.mode == 'rects' and t.form != 'polyl' and abs(b[0] - 2 * st[0]) <= .14: res.bad('rect-outline-doubled', '%s: %s border %s pt wide instead of %s' % (at, side, b[0], st[0]))
            elif abs(b[0] - st[0]) > (0.26 if t.mode == 'fill' else 0.14): res.bad('width', '%s: %s border %s pt wide instead of %s' % (at, side, b[0], st[0]))
            if not G.same_color(b[1], st[1]): res.bad('bcolour', '%s: %s border %s instead of %s' % (at, side, b[1], st[1]))
            if b[2] != 'single': res.bad('style', '%s: %s border is %s' % (at, side, b[2]))
        # merged cells: the parts below show their borders too
        for x in d.all_cells:
            if x.vmerge == 'continue' and x.col == c.c and c.r < x.row < c.r + c.nr:
                for side, st, out in (('start', t.vstyle[c.c], t.open == 'v' and c.c == 0), ('end', t.vstyle[c.c + c.nc], t.open == 'v' and c.c + c.nc == m)):
                    if out or (t.segstyle and len(t.side(c, side)) > 1): continue
                    if t.segstyle: st = min(t.side(c, side))
                    b = x.borders.get(side)
                    res.count('below')
                    if t.mode == 'rects': st = t.hstyle[0]
                    if b is None or abs(b[0] - st[0]) > .26 + (st[0] if t.mode == 'rects' else 0) or not G.same_color(b[1], st[1]):
                        res.bad('below', '%s: %s border of the merged cell in row %d is %s instead of %s' % (at, side, x.row, b, st))
