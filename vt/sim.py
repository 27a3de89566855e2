# -*- coding: utf-8 -*-
'''Where a word processor puts the paragraphs, cells and pictures of a generated docx.

Only what pdf2docx relies on is modelled: exact line heights, exact row heights, spacing, indents, tables with
an indent and fixed columns.  Line wrapping is not: the caller says how many rows a paragraph takes.
'''
MIN_LINE = 1.0


class Placed:
    '''A paragraph: the column [x0, x1] it has (indents excluded), [y0, y1] of its text.'''
    __slots__ = ('p', 'x0', 'x1', 'y0', 'y1', 'rows', 'cell', 'table', 'section')

    def __init__(self, p, x0, x1, y0, y1, rows, cell, table, section):
        self.p, self.x0, self.x1, self.y0, self.y1, self.rows = p, x0, x1, y0, y1, rows
        self.cell, self.table, self.section = cell, table, section

    def row_bottom(self, k): return self.y0 + (self.y1 - self.y0) * (k + 1) / self.rows

    @property
    def left(self): return self.x0 + self.p.left

    @property
    def first_left(self): return self.x0 + self.p.left + self.p.first

    @property
    def right(self): return self.x1 - self.p.right


class PlacedCell:
    __slots__ = ('cell', 'table', 'x0', 'y0', 'x1', 'y1')

    def __init__(self, cell, table, x0, y0, x1, y1):
        self.cell, self.table, self.x0, self.y0, self.x1, self.y1 = cell, table, x0, y0, x1, y1


class Layout:
    def __init__(self, section, rows_of):
        self.section, self.rows_of = section, rows_of
        self.paras, self.cells = [], []
        s = section
        self.end = self._flow(s.items, s.left, s.w - s.right, s.top, None, None)

    def _flow(self, items, x0, x1, y, cell, table):
        for it in items:
            if it.kind == 'p':
                y += it.before
                rows = max(1, self.rows_of(it))
                ims = [i for i in it.images if i.inline]
                if it.rule in ('exact', 'atLeast'): h = rows * it.line
                elif ims: h = max(i.cy for i in ims)
                else: h = rows * 12.0 * (it.line or 1.0)
                self.paras.append(Placed(it, x0, x1, y, y + h, rows, cell, table, self.section))
                y += h + it.after
            else:
                y = self._table(it, x0, y)
        return y

    def _table(self, t, x0, y):
        xs = [x0 + (t.ind or 0.0)]
        widths = self.columns(t)
        for wd in widths: xs.append(xs[-1] + wd)
        # the rows are measured between the centre lines of the borders
        half = (t.cells[0].borders.get('top') or (0.0,))[0] / 2.0 if t.cells else 0.0
        ys = [y + half]
        for h in t.heights: ys.append(ys[-1] + (h or 0.0))
        for c in t.cells:
            a, b, u, v = xs[c.col], ys[c.row], xs[min(c.col + c.span, len(xs) - 1)], ys[min(c.row + c.nrow, len(ys) - 1)]
            self.cells.append(PlacedCell(c, t, a, b, u, v))
            bw = lambda k: (c.borders.get(k) or (0.0,))[0] / 2.0
            if c.dir == 'btLr': self._flow(c.items, -v, -b, a, c, t); continue      # in coordinates (-y, x)
            self._flow(c.items, a + (c.mar.get('start') or 0.0), u - (c.mar.get('end') or 0.0), b + bw('top'), c, t)
        return ys[-1] + half

    @staticmethod
    def columns(t):
        '''Column widths from the cell widths (the grid of python-docx is not updated).'''
        n = len(t.grid)
        out = [None] * n
        for c in t.cells:
            if c.span == 1 and c.width is not None: out[c.col] = c.width
        # merged cells fill in what single ones leave open
        for _ in range(n):
            for c in t.cells:
                cols = range(c.col, c.col + c.span)
                miss = [j for j in cols if out[j] is None]
                if len(miss) == 1 and c.width is not None:
                    out[miss[0]] = c.width - sum(out[j] for j in cols if out[j] is not None)
        for j in range(n):
            if out[j] is None: out[j] = t.grid[j] or 0.0
        return out
