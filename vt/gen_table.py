# -*- coding: utf-8 -*-
'''Generated tables with explicit borders, with the ground truth of structure, content and appearance.'''
from . import gen_text as T

COLORS = [(0, 0, 0), (1, 0, 0), (0, 0, 1), (0, 0.5, 0), (0.25, 0.25, 0.25), (0.8, 0.4, 0), (0.5, 0, 0.5)]
FILLS = [(1, 1, 0), (0.8, 0.9, 1), (0.9, 0.9, 0.9), (0, 1, 0), (1, 0.8, 0.8), (0.2, 0.6, 0.4), (0.6, 0.6, 1)]


def hexc(c):
    '''colour of a PDF (gray, RGB or CMYK components in [0,1]) -> set of acceptable RRGGBB (rounding either way)'''
    if isinstance(c, (int, float)): c = (c,)
    if len(c) == 1: c = (c[0],) * 3
    if len(c) == 4:
        k = 1 - c[3]
        c = tuple((1 - v) * k for v in c[:3])
    return tuple(255 * v for v in c)


def same_color(hx, c, tol=1.01):
    if not hx or len(hx) != 6: return False
    got = [int(hx[i:i + 2], 16) for i in (0, 2, 4)]
    return all(abs(a - b) <= tol for a, b in zip(got, hexc(c)))


class CellT:
    def __init__(self, r, c, nr, nc):
        self.r, self.c, self.nr, self.nc = r, c, nr, nc
        self.blocks = []      # T.Block
        self.fill = None
        self.nested = None    # TableT
        self.image = None
        self.vertical = None  # lines of vertical text
        self.vblock = None    # the same in coordinates (-y, x)

    @property
    def words(self): return ' '.join([l.text for b in self.blocks for l in b.lines] + (self.vertical or [])).split()


class TableT:
    def __init__(self, xs, ys, cells):
        self.xs, self.ys, self.cells = xs, ys, cells
        self.hstyle, self.vstyle = {}, {}   # line index -> (width, color)
        self.mode = self.open = None
        self.segstyle = None                # unit segment -> (width, color), if not uniform along the lines

    def side(self, c, side):
        '''the styles of the line drawn along the side of a cell'''
        if side in ('top', 'bottom'):
            i = c.r if side == 'top' else c.r + c.nr
            return {self.segstyle['h', i, j] if self.segstyle else self.hstyle[i] for j in range(c.c, c.c + c.nc)}
        j = c.c if side == 'start' else c.c + c.nc
        return {self.segstyle['v', i, j] if self.segstyle else self.vstyle[j] for i in range(c.r, c.r + c.nr)}

    def structure(self): return {(c.r, c.c): (c.nr, c.nc) for c in self.cells}

    def box(self, c): return self.xs[c.c], self.ys[c.r], self.xs[c.c + c.nc], self.ys[c.r + c.nr]

    def cell(self, r, c):
        for x in self.cells:
            if (x.r, x.c) == (r, c): return x

    def segments(self):
        '''unit border segments which are drawn: ('h', i, j) below row i-1 over column j; ('v', i, j) in row i left of column j'''
        own = {}
        for k, c in enumerate(self.cells):
            for i in range(c.r, c.r + c.nr):
                for j in range(c.c, c.c + c.nc): own[i, j] = k
        R, C = len(self.ys) - 1, len(self.xs) - 1
        seg = set()
        for i in range(R + 1):
            for j in range(C):
                if own.get((i - 1, j)) != own.get((i, j)): seg.add(('h', i, j))
        for i in range(R):
            for j in range(C + 1):
                if own.get((i, j - 1)) != own.get((i, j)): seg.add(('v', i, j))
        return seg

    def all_cells(self):
        for c in self.cells:
            yield c
            if c.nested: yield from c.nested.all_cells()


def partition(rnd, R, C, p, tries=40):
    '''random partition of an R x C lattice into rectangles, every inner line being drawn somewhere'''
    for _ in range(tries):
        own = [[None] * C for _ in range(R)]
        cells = []
        for i in range(R):
            for j in range(C):
                if own[i][j] is not None: continue
                nr = nc = 1
                if rnd.random() < p:
                    nc = rnd.randint(1, min(3, C - j))
                    nr = rnd.randint(1, min(3, R - i))
                    while any(own[i][j + b] is not None for b in range(nc)): nc -= 1
                c = CellT(i, j, nr, nc)
                for a in range(nr):
                    for b in range(nc): own[i + a][j + b] = c
                cells.append(c)
        t = TableT([0] * (C + 1), [0] * (R + 1), cells)
        seg = t.segments()
        if all(any(s[0] == 'h' and s[1] == i for s in seg) for i in range(R + 1)) and \
           all(any(s[0] == 'v' and s[2] == j for s in seg) for j in range(C + 1)):
            return t
    return TableT([0] * (C + 1), [0] * (R + 1), [CellT(i, j, 1, 1) for i in range(R) for j in range(C)])


def runs(idx):
    '''consecutive runs of a set of ints'''
    out = []
    for i in sorted(idx):
        if out and out[-1][1] == i: out[-1][1] = i + 1
        else: out.append([i, i + 1])
    return out


def draw_borders(page, t, mode):
    '''mode: seg (unit segments), span (maximal lines), fill (thin filled rectangles), rects (stroked cell boxes)'''
    t.mode = mode
    seg = t.segments()
    # missing outer borders
    if t.open == 'v': seg = {s for s in seg if not (s[0] == 'v' and s[2] in (0, len(t.xs) - 1))}
    elif t.open == 'top': seg = {s for s in seg if not (s[0] == 'h' and s[1] == 0)}
    elif t.open == 'bottom': seg = {s for s in seg if not (s[0] == 'h' and s[1] == len(t.ys) - 1)}
    if mode == 'rects':
        w, col = t.hstyle[0]
        for c in t.cells: page.rect(*t.box(c), stroke=col, width=w)
        return
    if t.segstyle:
        for k in sorted(seg):
            kind, i, j = k
            w, col = t.segstyle[k]
            a, b = (t.xs[j], t.ys[i]), (t.xs[j + 1], t.ys[i]) if kind == 'h' else (t.xs[j], t.ys[i + 1])
            if mode == 'fill': page.rect(a[0] - w / 2, a[1] - w / 2, b[0] + w / 2, b[1] + w / 2, fill=col)
            else: page.line(*a, *b, col, w)
        return
    for i in range(len(t.ys)):
        js = {s[2] for s in seg if s[0] == 'h' and s[1] == i}
        w, col = t.hstyle[i]
        parts = [(j, j + 1) for j in sorted(js)] if mode == 'seg' else runs(js)
        for a, b in parts:
            if mode == 'fill': page.rect(t.xs[a] - w / 2, t.ys[i] - w / 2, t.xs[b] + w / 2, t.ys[i] + w / 2, fill=col)
            else: page.line(t.xs[a], t.ys[i], t.xs[b], t.ys[i], col, w)
    for j in range(len(t.xs)):
        is_ = {s[1] for s in seg if s[0] == 'v' and s[2] == j}
        w, col = t.vstyle[j]
        parts = [(i, i + 1) for i in sorted(is_)] if mode == 'seg' else runs(is_)
        for a, b in parts:
            if mode == 'fill': page.rect(t.xs[j] - w / 2, t.ys[a] - w / 2, t.xs[j] + w / 2, t.ys[b] + w / 2, fill=col)
            else: page.line(t.xs[j], t.ys[a], t.xs[j], t.ys[b], col, w)


def fill_cells(page, t, rnd, p=0.35, fills=FILLS):
    for c in t.cells:
        if rnd.random() < p:
            c.fill = rnd.choice(fills)
            page.rect(*t.box(c), fill=c.fill)


def cell_text(page, rnd, words, t, c, size, fonts, aligns=('left', 'center', 'right'), p_empty=0.15, maxlines=3, pad=4.0, colors=(T.BLACK,), snug=None):
    if rnd.random() < p_empty: return
    x0, y0, x1, y1 = t.box(c)
    h = max(sum(T.vmetrics(size, f)) for f in fonts)
    room = int((y1 - y0 - 2 * pad) / h)
    if room < 1 and snug is None: return
    n = rnd.randint(1, max(1, min(maxlines, room)))
    slack = y1 - y0 - 2 * pad - n * h
    y = y0 + pad + rnd.uniform(0, max(slack, 0)) * rnd.choice((0, 0.5, 1))
    if snug is not None:      # so close to the borders as the glyphs allow
        up, n = max(T.vmetrics(size, f)[0] for f in fonts), rnd.randint(1, maxlines)
        n = max(1, min(n, int((y1 - y0 - 2 * snug - size) / h) + 1))
        lo, hi = y0 + snug + .74 * size - up, y1 - snug - .23 * size - (n - 1) * h - up
        y = rnd.choice((lo, lo, hi, rnd.uniform(lo, max(lo, hi)))) if hi > lo else lo
    b = T.paragraph(rnd, words, x0 + pad, x1 - pad, y, n, size, fonts, rnd.choice(aligns), h, 0.0, colors, trailing=False,
                    full=(0.8, 1.0), last=(0.4, 0.9))
    if b is None: return
    # vertically adjacent lines of a cell: keep order unambiguous
    T.draw(page, b)
    c.blocks.append(b)


def vertical_text(page, rnd, words, t, c, size, font, pad=4.0):
    '''lines from bottom to top, side by side'''
    x0, y0, x1, y1 = t.box(c)
    up, down = T.vmetrics(size, font)
    room, avail = int((x1 - x0 - 2 * pad) / (up + down)), y1 - y0 - 2 * pad
    if room < 1: return
    lines = []
    for _ in range(rnd.randint(1, min(room, 3))):
        line = words()
        while rnd.random() < .6 and T.width(line + ' ' + 'm' * 7, font, size) < avail: line += ' ' + words()
        if T.width(line, font, size) > avail: break
        lines.append(line)
    x = x0 + pad + rnd.choice((0, .5, 1)) * (x1 - x0 - 2 * pad - len(lines) * (up + down))
    wd = [T.width(l, font, size) for l in lines]
    free, k, first = avail - max(wd, default=0), rnd.choice((0, 0, .5, 1)), 0.0
    if k == 0 and len(lines) == 3 and free > 12: first = rnd.choice((0, rnd.uniform(3, min(free, 20))))
    off, out = rnd.choice((0, .5, 1)) * (free - first), []
    for n, l in enumerate(lines):
        y = y1 - pad - off - k * (max(wd) - wd[n]) - (0 if n else first)
        page.text(x + up, y, l, font, size, (0, 0, 0), vertical=True)
        out.append(T.Line([T.Span(l, font, size, (0, 0, 0), -y, x + up)]))
        x += up + down
    c.vblock = T.Block(out, 'vertical', first) if out else None
    c.vertical = lines or None


def lattice(page, rnd, words, x0, x1, y0, y1=None, R=None, C=None, merge=0.35, mode=None, style='uniform', shade=0.3, size=None, fam=None,
            nested=0.0, p_empty=0.15, rowh=(20, 60), aligns=('left', 'center', 'right'), minw=46.0, widths=(0.5, 0.75, 1.0, 1.5, 2.0, 3.0), colors=(T.BLACK,), open_=None, thin=0.0, vertical=0.0, snug=False):
    '''Draw a table with explicit borders between x0 and x1 from y0 downwards -> TableT (None if there is no room)'''
    C = C or rnd.randint(1, max(1, min(6, int((x1 - x0) / minw))))
    R = R or rnd.randint(1, 7)
    if R * C == 1: R = 2
    size = size or rnd.choice((7, 8, 9, 10, 11))
    fam = fam or rnd.choice(tuple(T.FAMILY))
    fonts = T.fonts_of(rnd, fam, rnd.random() < 0.5)
    while True:
        hs = [round(rnd.uniform(3.4, 7) if thin and rnd.random() < thin else rnd.uniform(*rowh), 2) for _ in range(R)]
        if y1 is None or y0 + sum(hs) <= y1: break
        if R > 1: R -= 1
        else: return None
    t = partition(rnd, R, C, merge)
    # without left and right borders, a cell over all columns separates two tables (and so on)
    if open_ and (R < 2 or C < 2): return None
    while open_ and any(c.nc == C or c.nr == R for c in t.cells): t = partition(rnd, R, C, merge / 2 if rnd.random() < .8 else 0)
    cuts = [rnd.uniform(0.6, 1.4) for _ in range(C)]
    tot = sum(cuts)
    xs = [x0]
    narrow = [rnd.uniform(3.4, 9) if thin and rnd.random() < thin else 0 for _ in range(C)]
    if narrow[-1] and not all(narrow) or sum(map(bool, narrow)) > C / 2: narrow = [0] * C
    if any(narrow): tot = sum(k for k, n in zip(cuts, narrow) if not n)
    for k, n in zip(cuts, narrow): xs.append(round(xs[-1] + (n or (x1 - x0 - sum(narrow)) * k / tot), 2))
    xs[-1] = x1
    ys = [y0]
    for h in hs: ys.append(round(ys[-1] + h, 2))
    t.xs, t.ys = xs, ys
    mode = mode or rnd.choice(('seg', 'span', 'fill', 'span'))
    page.form = rnd.choice(('re', 're', 'neg', 'poly', 'polyl', 'polyo') if mode != 'rects' else ('re', 'neg', 'poly', 'polyl'))
    if style == 'uniform':
        st = (rnd.choice(widths), rnd.choice(COLORS))
        t.hstyle = {i: st for i in range(R + 1)}
        t.vstyle = {j: st for j in range(C + 1)}
    else:
        t.hstyle = {i: (rnd.choice(widths), rnd.choice(COLORS)) for i in range(R + 1)}
        t.vstyle = {j: (rnd.choice(widths), rnd.choice(COLORS)) for j in range(C + 1)}
    if style == 'segments':
        # one style where two cells meet, and for a cell at an edge
        own = {(i, j): k for k, c in enumerate(t.cells) for i in range(c.r, c.r + c.nr) for j in range(c.c, c.c + c.nc)}
        pal = [(w, col) for w in rnd.sample(widths, 2) for col in rnd.sample(COLORS, 2)]
        pairs, t.segstyle = {}, {}
        for k in t.segments():
            kind, i, j = k
            ab = (own.get((i - 1, j) if kind == 'h' else (i, j - 1)), own.get((i, j)))
            t.segstyle[k] = pairs.setdefault(ab + (kind,), rnd.choice(pal))
        t.hstyle = {i: max(v for k, v in t.segstyle.items() if k[0] == 'h' and k[1] == i) for i in range(R + 1)}
        t.vstyle = {j: max(v for k, v in t.segstyle.items() if k[0] == 'v' and k[2] == j) for j in range(C + 1)}
    fill_cells(page, t, rnd, shade)
    t.open, t.form = open_, page.form
    draw_borders(page, t, mode)
    pad = 3.0 + max(w for w, _ in list(t.hstyle.values()) + list(t.vstyle.values())) / 2
    for c in t.cells:
        a, b, u, v = t.box(c)
        if nested and u - a > 130 and v - b > 60 and rnd.random() < nested:
            q = lattice(page, rnd, words, a + 10, u - 10, b + 9, v - 9, R=2, C=2, merge=0, mode=mode, shade=0, size=min(size, 9), fam=fam,
                        rowh=(20, 24), p_empty=0.0, aligns=('left',))
            if q is not None and v - q.ys[-1] > 8:
                c.nested = q
                continue
        if vertical and rnd.random() < vertical:
            vertical_text(page, rnd, words, t, c, size, rnd.choice(fonts), pad)
            continue
        cell_text(page, rnd, words, t, c, size, fonts, aligns, p_empty, 3, pad, colors, pad - 2.5 if snug else None)
    return t
