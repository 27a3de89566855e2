# -*- coding: utf-8 -*-
'''C04 underline, strike-through, highlight and hyperlinks cover exactly the right characters'''
import random
from .. import common as M
from .. import docxr
from .. import gen_table as G
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf

TITLE = 'Underlines, strike-throughs, highlights and hyperlinks cover exactly the marked characters'
RULE = ('generated lines (also inside ruled tables) with marks over random ranges of characters: underlines and strike-throughs drawn as lines or thin '
        'rectangles of any colour, highlights, link annotations, several marks per line and marks on top of each other; the marks of every non-blank '
        'character of the docx are compared with the drawn ones; distinct by seed, non-trivial with at least one mark')
NEED = {'chars': 20000, 'u': 300, 's': 300, 'h': 300, 'a': 300, 'both': 60}
HL = {'red': (1, 0, 0), 'green': (0, 1, 0), 'blue': (0, 0, 1), 'yellow': (1, 1, 0), 'magenta': (1, 0, 1), 'cyan': (0, 1, 1)}
FILLS = list(HL.values()) + [(1, .8, .2), (.8, 1, .8), (.7, .7, 1)]


def cases(tier, rnd):
    k = 12 if tier == 'quick' else 60
    return M.mixed(rnd, [(16 * k, {'kind': 'one'}), (12 * k, {'kind': 'many'}), (10 * k, {'kind': 'stack'}), (8 * k, {'kind': 'table'}), (8 * k, {'kind': 'para'}), (6 * k, {'kind': 'vertical'}), (6 * k, {'kind': 'snug'}), (5 * k, {'kind': 'shaded'})], enc=.3)


def ranges(rnd, s, n):
    '''n disjoint ranges of characters of a line, beginning and ending with a visible character'''
    out = []
    for _ in range(n):
        for _ in range(20):
            a = rnd.randrange(len(s)); b = min(len(s), a + rnd.choice((1, 2, 3, rnd.randint(2, 12), rnd.randint(5, 30))))
            if s[a].isspace() or s[b - 1].isspace(): continue
            if all(b + 2 <= u or a >= v + 2 for u, v in out): out.append((a, b)); break
    return out


class Turned:
    '''draws turned by 90 degrees, texts run upwards'''

    def __init__(self, p): self.p, self.w, self.h = p, p.h, p.w

    def at(self, x, y): return y, self.w - x

    def box(self, x0, y0, x1, y1):
        (a, b), (c, d) = self.at(x0, y0), self.at(x1, y1)
        return min(a, c), min(b, d), max(a, c), max(b, d)

    @property
    def ops(self): return self.p.ops

    @ops.setter
    def ops(self, v): self.p.ops = v

    def text(self, x, y, *a): self.p.text(*self.at(x, y), *a, vertical=True)

    def line(self, x0, y0, x1, y1, *a): self.p.line(*self.at(x0, y0), *self.at(x1, y1), *a)

    def rect(self, *a, **k): self.p.rect(*self.box(*a), **k)

    def link(self, x0, y0, x1, y1, uri): self.p.link(*self.box(x0, y0, x1, y1), uri)


def mark(pdf, p, rnd, l, rg, kind, marks, uris, cell=None):
    '''draws one mark; marks: list per character of {kind: value}'''
    used = [v for i in range(*rg) for v in marks[i].values()] + ([cell[1]] if cell else [])
    ch = [(c, a, b, s) for s in l.spans for c, a, b in s.chars()]
    a, b = rg
    x0, x1 = ch[a][1] + rnd.uniform(-.2, .2), ch[b - 1][2] + rnd.uniform(-.2, .2)
    s = ch[a][3]
    y, size = l.y, s.size
    asc, desc = T.vmetrics(size, s.font)
    if kind in 'us':
        col = s.color if rnd.random() < .5 else rnd.choice(G.COLORS)
        if col in used: return      # invisible
        w = rnd.choice((.5, .6, .8, 1))
        yy = y + desc * rnd.uniform(.45, .75) if kind == 'u' else y + desc - (asc + desc) * rnd.uniform(.45, .55)
        if cell and min(abs(yy - v) for v in cell[0]) < 4: return     # rather a doubled border
        if rnd.random() < .6: p.line(x0, yy, x1, yy, col, w)
        else: p.rect(x0, yy - w / 2, x1, yy + w / 2, fill=col)
        val = col
    elif kind == 'h':
        val = rnd.choice(FILLS)
        # a narrow filled box is rather a line
        if x1 - x0 < 9 or val in used: return
        # drawn behind the text
        p.ops.insert(0, b'')
        keep, p.ops = p.ops, []
        p.rect(x0, y - asc * rnd.uniform(.88, 1), x1, y + desc * rnd.uniform(.8, 1), fill=val)
        p.ops = p.ops + keep[1:]
    else:
        val = 'http://example.com/%d/%s' % (len(uris), ''.join(rnd.choice('abcxyz-_') for _ in range(rnd.randint(0, 12))))
        if rnd.random() < .3: val += rnd.choice(('?q=1&r=2', '#top', '?a=%20b', '/\'q\'', '?x=<y>'))
        uris.append(val)
        d = rnd.choice((0, 0, rnd.uniform(0, 2)))         # the area may exceed the line (as hyperref has it)
        p.link(x0, y - asc * .9 - d, x1, y + desc * .85 + d, val)
    for i in range(a, b): marks[i][kind] = val


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf = Pdf()
    p = pdf.page(*rnd.choice(T.SIZES[:3]))
    words, uris = T.Words(rnd), []
    p.form = rnd.choice(('re', 're', 'neg', 'poly', 'polyl', 'polyo'))
    lines = []
    if kind == 'vertical': p = Turned(p)
    if kind in ('table', 'snug', 'shaded'):
        kw = dict(snug=True, mode=rnd.choice(('span', 'fill'))) if kind == 'snug' else {}
        t = G.lattice(p, rnd, words, 60, p.w - 60, 60, p.h - 60, C=rnd.randint(1, 3), R=rnd.randint(2, 5), style='uniform', shade=.5 if kind == 'shaded' else 0, rowh=(40, 90), p_empty=.05,
                      widths=(.5, 1), size=rnd.choice((9, 10, 11)), **kw)
        lines = [l for c in t.cells for b in c.blocks for l in b.lines]
        # lines of a cell are close to each other: mark every other one
        can = [l for c in t.cells for b in c.blocks for l in b.lines[::2]]
    elif kind == 'para':
        bl = T.flow(p, rnd, words, mix=True, aligns=('left', 'justify'), maxlines=5)
        lines = [l for b in bl for l in b.lines]
        can = lines
    else:
        y = 80.0
        while y < p.h - 90:
            size = rnd.choice((9, 10, 11, 12, 14))
            fonts = T.fonts_of(rnd, rnd.choice(tuple(T.FAMILY)), rnd.random() < .5)
            y += size * 1.2
            l = T.make_line(rnd, words, rnd.uniform(60, 90), p.w - 150, rnd.uniform(.4, 1) * (p.w - 150), fonts, size, (T.BLACK, rnd.choice(G.COLORS)))
            if l is None: continue
            T.shift(l, 0, y)
            for s in l.spans: p.text(s.x0, s.y, s.s, s.font, s.size, s.color)
            lines.append(l)
            y += size * rnd.uniform(.8, 2.5)
        can = lines
    cell = {id(l): ((t.box(c)[1], t.box(c)[3]), c.fill) for c in t.cells for b in c.blocks for l in b.lines} if kind in ('snug', 'shaded') else {}
    marks = {id(l): [{} for _ in l.text] for l in lines}
    for l in can:
        if rnd.random() < .25: continue
        m, n = marks[id(l)], len(l.text)
        if kind == 'stack':
            a, b = (ranges(rnd, l.text, 1) or [(0, 0)])[0]
            if b - a < 4 or b - a > .7 * n: continue
            ks = rnd.choice(('ua', 'hu', 'ha', 'hs', 'hau', 'sa'))
            for i, k in enumerate(ks):
                q = (a, b)
                if i and rnd.random() < .5:
                    u = rnd.randrange(a, b); v = rnd.randrange(u + 1, b + 1)
                    if not l.text[u].isspace() and not l.text[v - 1].isspace(): q = (u, v)
                mark(pdf, p, rnd, l, q, k, m, uris, cell.get(id(l)))
            res.count('both')
        else:
            for q in ranges(rnd, l.text, rnd.randint(2, 4) if kind == 'many' else rnd.randint(1, 3) if kind == 'vertical' else 1):
                # a highlight of a whole line may as well be the shading of a table
                ks = 'usa' if kind == 'table' or q[1] - q[0] > .7 * n else 'usha'
                mark(pdf, p, rnd, l, q, rnd.choice(ks), m, uris, cell.get(id(l)))
    for m in marks.values():
        for d in m:
            for k in d: res.count(k)
    r = M.convert(res, pdf.tobytes(), 1)
    if r is None: return res
    res.sig = [kind, case['seed']]
    res.note = '%s: %d lines, %d links' % (kind, len(lines), len(uris))
    got = [(ch, k) for q in docxr.walk(r.docx.sections[0].items) for k in q.runs for ch in k.text if not ch.isspace()]
    want = [(c, s, m) for l in lines for (c, s), m in zip([(c, s) for s in l.spans for c in s.s], marks[id(l)]) if not c.isspace()]
    # compare word by word, the order is not the point (C01)
    text = ''.join(c for c, _ in got)
    pos = 0
    for l in lines:
        ch = [(c, s, m) for (c, s), m in zip([(c, s) for s in l.spans for c in s.s], marks[id(l)])]
        i = 0
        while i < len(ch):
            if ch[i][0].isspace(): i += 1; continue
            j = i
            while j < len(ch) and not ch[j][0].isspace(): j += 1
            w = ''.join(c for c, _, _ in ch[i:j])
            k = text.find(w)
            if k < 0: res.bad('lost', 'word %r not found' % w)
            else:
                for (c, s, m), (_, run) in zip(ch[i:j], got[k:k + len(w)]): one(res, l, w, c, s, m, run)
            i = j
    return res


def one(res, l, w, c, s, m, run):
    res.count('chars')
    at = '%r of %r (line %r)' % (c, w, l.text[:50])
    u = run.u not in (None, 'none')
    if u != ('u' in m): res.bad('underline', '%s: underline %s, marks %s' % (at, run.u, m))
    elif u:
        if run.u not in ('single', 'words'): res.bad('utype', '%s: underline of type %s' % (at, run.u))
        col = m['u']
        if run.ucolor is None: ok = G.same_color(run.color, col)
        else: ok = G.same_color(run.ucolor, col)
        if not ok: res.bad('ucolor', '%s: underline colour %s/%s instead of %s' % (at, run.ucolor, run.color, col))
    if bool(run.strike) != ('s' in m): res.bad('strike', '%s: strike %s, marks %s' % (at, run.strike, m))
    h = run.hl or run.shd
    if bool(h) != ('h' in m): res.bad('highlight', '%s: highlight %s, marks %s' % (at, h, m))
    elif h:
        if run.hl: ok = HL.get(run.hl) == m['h']
        else: ok = G.same_color(run.shd, m['h'])
        if not ok: res.bad('hcolor', '%s: highlight %s instead of %s' % (at, h, m['h']))
    if run.href != m.get('a'): res.bad('link', '%s: link %r instead of %r' % (at, run.href, m.get('a')))
