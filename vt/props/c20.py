# -*- coding: utf-8 -*-
'''C20 paragraph layout: a word processor puts the lines where the PDF has them'''
import random
from .. import common as M
from .. import gen_text as T
from .. import sim
from ..core import Result
from ..pdfw import Pdf

TITLE = 'Paragraphs keep their position on the page'
RULE = ('generated pages of paragraphs (left, centred, right, justified, indented or hanging first line; tight and loose leading; several '
        'fonts and sizes); the docx is laid out by a simulator (exact line heights, spacing, indents, tab stops, table cells) and every '
        'line is compared with the position the harness drew it at; distinct by seed and kind, non-trivial with at least 3 lines compared')
NEED = {'lines': 1000, 'x_left': 500, 'x_center': 30, 'x_right': 30, 'cell_lines': 400}
TOLX, TOLY = 1.6, 1.6
KINDS = ('plain', 'style', 'nested', 'big', 'thin', 'vertical', 'vertical')


def cases(tier, rnd):
    k = 15 if tier == 'quick' else 60
    return M.mixed(rnd, [(20 * k, {'kind': 'loose'}), (12 * k, {'kind': 'tight'}), (10 * k, {'kind': 'single'}), (10 * k, {'kind': 'justify'}), (12 * k, {'kind': 'cells'})], enc=.3)


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf = Pdf()
    p = pdf.page(*rnd.choice(T.SIZES))
    words = T.Words(rnd)
    aligns = {'single': (rnd.choice(('left', 'center', 'right', 'indent', 'hang')),), 'justify': ('justify', 'justindent', 'left')}.get(
        kind, ('left', 'left', 'center', 'right', 'indent', 'hang'))
    if kind == 'cells': return cells(case, res)
    bl = T.flow(p, rnd, words, tight=kind in ('tight', 'justify'), mix=rnd.random() < .6, aligns=aligns,
                sizes=(8, 9, 10, 10.5) if kind == 'justify' else (8, 9, 10, 10.5, 11, 12, 14, 16))
    if not bl: res.inc = 'empty'; return res
    r = M.convert(res, pdf.tobytes(), 1)
    if r is None: return res
    check(res, r.docx.sections[0], bl, p)
    res.sig = [kind, case['seed']]
    res.note = '%s: %d paragraphs, %d lines' % (kind, len(bl), sum(len(b.lines) for b in bl))
    return res


def cells(case, res):
    '''paragraphs in the cells of ruled tables'''
    from . import c05
    rnd = random.Random(case['seed'] + 1)
    pdf, p, tabs, paras = c05.build(dict(case, kind=rnd.choice(KINDS)))
    if not tabs: res.inc = 'empty'; return res
    inner = [b for t in tabs for c in t.all_cells() for b in c.blocks + ([c.vblock] if c.vblock else [])]
    r = M.convert(res, pdf.tobytes(), 1)
    if r is None: return res
    check(res, r.docx.sections[0], paras + inner, p, loose=[l for b in inner for l in b.lines], toly=2.6, ltol=3.3 if any(c.nested for t in tabs for c in t.cells) else 2.8)
    res.count('cell_lines', sum(len(b.lines) for b in inner))
    res.sig = ['cells', case['seed']]
    res.note = 'cells: %d paragraphs in %d tables' % (len(inner), len(tabs))
    return res


def tabbed(P, rows, where, lines):
    '''line -> x of its text, behind the tabs in front of it; rows: lines of each row'''
    row = {i: k for k, r in enumerate(rows) for i in r}
    n, last, out = 0, None, {}
    for r in P.p.runs:
        if r.kind == 'tab': n += 1; continue
        for t in r.text.split():
            i = where.get(t)
            if i in row and i != last:
                x = (P.first_left if row[i] == 0 else P.left) if last is None or row[last] != row[i] else out.get(last, lines[last].x0) + lines[last].x1 - lines[last].x0
                for _ in range(n):
                    nxt = [t + P.x0 for t in sorted(P.p.tabs) if t + P.x0 > x + .01]
                    x = nxt[0] if nxt else x
                out.setdefault(i, x)
                last = i
        if r.text.strip(): n = 0
    return out


def rows_of(ids, lines):
    '''lines of a paragraph -> lines of each row'''
    out = []
    for i in ids:
        if out and abs(lines[out[-1][-1]].y - lines[i].y) < .3 and lines[out[-1][-1]].x1 < lines[i].x0 + 1: out[-1].append(i)
        else: out.append([i])
    return out


def check(res, sec, bl, page, tolx=TOLX, toly=TOLY, loose=(), ltol=2.2):
    '''loose: lines in ruled tables'''
    base, loose = tolx, {id(l) for l in loose}
    lines = [l for b in bl for l in b.lines]
    where = {t: i for i, l in enumerate(lines) for t in l.text.split()}
    ids_of = lambda q: sorted({where[t] for t in q.text.split() if t in where})
    L = sim.Layout(sec, lambda q: len(rows_of(ids_of(q), lines)) or 1)
    seen = set()
    drawn = [b.align for b in bl for l in b.lines]
    for P in L.paras:
        ids = ids_of(P.p)
        e = [lines[i].x1 for i in ids]
        # the right edges of all lines but the last are the same by chance: right aligned, as far as the converter can tell
        unclear = P.p.align == 'right' and len(e) > 2 and max(e[:-1]) - min(e[:-1]) < 1.6 and any(drawn[i] != 'right' for i in ids)
        if unclear: res.count('unclear')
        # one line height for the whole paragraph: only the last line is sure to fit if the lines aren't alike
        rows = rows_of(ids, lines)
        xs = tabbed(P, rows, where, lines)
        row, joined = {i: k for k, r in enumerate(rows) for i in r}, {i for r in rows if len(r) > 1 for i in r}
        if joined: res.count('joined', len(joined))
        b0, b1 = (lines[ids[0]].bottom, lines[ids[-1]].bottom) if ids else (0, 0)
        even = [b0 + (b1 - b0) * k / max(1, len(rows) - 1) for k in range(len(rows))]
        uneven = any(abs(even[k] - lines[i].bottom) > .3 for i, k in row.items()) or len({lines[i].spans[0].size for i in ids}) > 1
        if uneven: res.count('uneven')
        for i in ids:
            k, l = row[i], lines[i]
            tolx = ltol if id(l) in loose else base
            res.count('lines')
            seen.add(i)
            d = P.row_bottom(k) - l.bottom
            if abs(d) > toly and not (uneven and k < len(rows) - 1): res.bad('y', 'line %r is %.2f pt too %s' % (l.text[:30], abs(d), 'low' if d > 0 else 'high'))
            al = P.p.align
            if unclear: continue
            if al == 'both' and k == len(rows) - 1 or al is None: al = 'left'
            res.count('x_' + al)
            if al in ('left', 'both'):
                x = xs.get(i, -999)
                if abs(x - l.x0) > tolx: res.bad('left', 'line %r starts at %.2f instead of %.2f (row %d of %d)' % (l.text[:30], x, l.x0, k, len(rows)))
            if i in joined and al not in ('left', 'both'): res.bad('tab', 'lines %s in one row of a paragraph aligned %s' % ([lines[j].text[:20] for j in rows[k]], al))
            if al in ('right', 'both') and i not in joined:
                dx = max(l.ink_x1 - P.right, P.right - l.x1)
                if dx > tolx: res.bad('right', 'line %r (%s) ends at %.2f instead of %.2f' % (l.text[:30], al, P.right, l.x1))
            if al == 'center' and i not in joined:
                c = (P.left + P.right) / 2
                dx = min(abs(c - (l.x0 + l.x1) / 2), abs(c - (l.x0 + l.ink_x1) / 2))
                if dx > tolx: res.bad('center', 'line %r is centred at %.2f instead of %.2f' % (l.text[:30], c, (l.x0 + l.x1) / 2))
            if al in ('left', 'both') and l.ink_x1 > P.right + tolx: res.bad('narrow', 'line %r of %.2f does not fit in its paragraph (right edge %.2f)' % (l.text[:30], l.ink_x1, P.right))
    if len(seen) < len(lines): res.bad('lost', 'lines without a paragraph: %r' % [l.text[:20] for i, l in enumerate(lines) if i not in seen][:3])
    if L.end > page.h - sec.bottom + 1.0: res.bad('overflow', 'content ends at %.2f beyond the body (%.2f)' % (L.end, page.h - sec.bottom))
    return L
