# -*- coding: utf-8 -*-
'''Independent reader of the generated docx (zip + XML only, no python-docx, no pdf2docx).

Everything an oracle looks at is what a word processor would see: sections, paragraphs, runs, tables
with the merged cells resolved, pictures through their relationships.'''
import io
import posixpath
import zipfile
from lxml import etree

W = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
A = 'http://schemas.openxmlformats.org/drawingml/2006/main'
WP = 'http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing'
PIC = 'http://schemas.openxmlformats.org/drawingml/2006/picture'
PKG = 'http://schemas.openxmlformats.org/package/2006/relationships'
CT = 'http://schemas.openxmlformats.org/package/2006/content-types'
w = lambda t: '{%s}%s' % (W, t)
EMU = 12700.0


class Malformed(Exception):
    pass


def _num(s):
    return float(s) if s is not None else None


class Run:
    '''A piece of text, or an image, with the formatting that applies to it.'''
    __slots__ = ('text', 'font', 'ea', 'size', 'scale', 'bold', 'italic', 'color', 'u', 'ucolor', 'strike',
                 'hl', 'shd', 'href', 'image', 'kind')

    def __init__(self):
        for k in self.__slots__: setattr(self, k, None)
        self.text = ''
        self.kind = 'text'

    def fmt(self):
        return tuple(getattr(self, k) for k in self.__slots__ if k not in ('text', 'image', 'kind'))


class Image:
    def __init__(self, inline, cx, cy, x, y, data, rid, target):
        self.inline, self.cx, self.cy, self.x, self.y = inline, cx, cy, x, y
        self.data, self.rid, self.target = data, rid, target
        self.frame, self.behind, self.wraps, self.changed = (None, None), False, False, []

    def array(self):
        import cv2
        import numpy as np
        return cv2.imdecode(np.frombuffer(self.data, np.uint8), cv2.IMREAD_UNCHANGED)


def _dxa(e):
    '''a measure of tables in points; other types are not absolute'''
    return _num(e.get(w('w'))) / 20 if e.get(w('type')) in (None, 'dxa') else None


class Para:
    kind = 'p'

    def __init__(self):
        self.runs = []
        self.left = self.right = self.first = 0.0
        self.before = self.after = 0.0
        self.line, self.rule = None, None
        self.align = None
        self.tabs = []
        self.sect = None

    @property
    def text(self): return ''.join(r.text for r in self.runs)

    @property
    def images(self): return [r.image for r in self.runs if r.image is not None]


class Cell:
    def __init__(self):
        self.items = []
        self.span, self.vmerge = 1, None
        self.width = None
        self.borders = {}
        self.shd = None
        self.dir = None
        self.mar = {}
        self.row = self.col = 0
        self.nrow = 1

    @property
    def paras(self): return [i for i in self.items if i.kind == 'p']

    @property
    def tables(self): return [i for i in self.items if i.kind == 't']

    @property
    def text(self): return '\n'.join(p.text for p in self.paras)


class Table:
    kind = 't'

    def __init__(self):
        self.grid, self.rows, self.heights, self.rules = [], [], [], []
        self.ind = None
        self.fixed = False
        self.cells = []      # top-left cells only, merged ones resolved: row, col, nrow, span
        self.all_cells = []  # all w:tc

    def structure(self):
        '''{(row, col): (nrow, ncol)} of the visible cells'''
        return {(c.row, c.col): (c.nrow, c.span) for c in self.cells}

    def cell(self, r, c):
        for x in self.cells:
            if x.row == r and x.col == c: return x


class Section:
    def __init__(self):
        self.items = []
        self.w = self.h = None
        self.left = self.right = self.top = self.bottom = None
        self.type = None

    @property
    def paras(self): return [i for i in self.items if i.kind == 'p']

    @property
    def tables(self): return [i for i in self.items if i.kind == 't']


def walk(items):
    '''All paragraphs in document order (into the cells of tables, row by row).'''
    for it in items:
        if it.kind == 'p':
            yield it
        else:
            for c in it.cells:
                yield from walk(c.items)


def all_tables(items):
    for it in items:
        if it.kind == 't':
            yield it
            for c in it.cells: yield from all_tables(c.items)


class Docx:
    '''A docx file: ``sections`` with their content.'''

    def __init__(self, src):
        data = src if isinstance(src, bytes) else open(src, 'rb').read()
        self.zip = zipfile.ZipFile(io.BytesIO(data))
        if self.zip.testzip() is not None: raise Malformed('corrupt zip member')
        self.names = self.zip.namelist()
        if len(set(self.names)) != len(self.names): raise Malformed('duplicate part names')
        self.part = 'word/document.xml'
        self.xml = self.zip.read(self.part)
        self.root = etree.fromstring(self.xml)
        self.rels = {}
        rel = 'word/_rels/document.xml.rels'
        if rel in self.names:
            for e in etree.fromstring(self.zip.read(rel)):
                self.rels[e.get('Id')] = (e.get('Type'), e.get('Target'), e.get('TargetMode'))
        self.sections = []
        self._parse()

    # ------------------------------------------------------------------
    def _parse(self):
        body = self.root.find(w('body'))
        items = []
        for e in body:
            if e.tag == w('p'):
                p = self._para(e)
                items.append(p)
                if p.sect is not None:
                    self._section(p.sect, items)
                    items = []
            elif e.tag == w('tbl'):
                items.append(self._table(e))
            elif e.tag == w('sectPr'):
                self._section(e, items)
                items = []
            else:
                raise Malformed('unexpected element in body: %s' % e.tag)
        if items: raise Malformed('content after the last section')

    def _section(self, e, items):
        s = Section()
        s.items = items
        sz, mar, tp = e.find(w('pgSz')), e.find(w('pgMar')), e.find(w('type'))
        if sz is not None:
            s.w, s.h = _num(sz.get(w('w'))) / 20, _num(sz.get(w('h'))) / 20
        if mar is not None:
            s.left, s.right, s.top, s.bottom = [_num(mar.get(w(k))) / 20 for k in ('left', 'right', 'top', 'bottom')]
            s.left += _num(mar.get(w('gutter'), '0')) / 20
        s.type = tp.get(w('val')) if tp is not None else None
        cols = e.find(w('cols'))
        s.cols = int(cols.get(w('num')) or 1) if cols is not None else 1
        self.sections.append(s)

    def _para(self, e):
        p = Para()
        pPr = e.find(w('pPr'))
        if pPr is not None:
            p.sect = pPr.find(w('sectPr'))
            ind, sp, jc, tabs = [pPr.find(w(k)) for k in ('ind', 'spacing', 'jc', 'tabs')]
            if ind is not None:
                p.left = (_num(ind.get(w('left'))) or _num(ind.get(w('start'))) or 0) / 20
                p.right = (_num(ind.get(w('right'))) or _num(ind.get(w('end'))) or 0) / 20
                if ind.get(w('firstLine')) is not None: p.first = _num(ind.get(w('firstLine'))) / 20
                if ind.get(w('hanging')) is not None: p.first = -_num(ind.get(w('hanging'))) / 20
            if sp is not None:
                p.before = (_num(sp.get(w('before'))) or 0) / 20
                p.after = (_num(sp.get(w('after'))) or 0) / 20
                p.rule = sp.get(w('lineRule'))
                if sp.get(w('line')) is not None:
                    p.line = _num(sp.get(w('line'))) / (20 if p.rule in ('exact', 'atLeast') else 240)
            if jc is not None: p.align = jc.get(w('val'))
            if tabs is not None: p.tabs = [_num(t.get(w('pos'))) / 20 for t in tabs]
        self._runs(e, p, None)
        return p

    def _runs(self, e, p, href):
        for c in e:
            if c.tag == w('r'):
                self._run(c, p, href, None)
            elif c.tag == w('hyperlink'):
                self._runs(c, p, self._href(c))
            elif c.tag in (w('pPr'), w('bookmarkStart'), w('bookmarkEnd'), w('proofErr')):
                continue
            else:
                raise Malformed('unexpected element in paragraph: %s' % c.tag)

    def _href(self, e):
        rid = e.get('{%s}id' % R)
        if rid not in self.rels: raise Malformed('hyperlink relationship %s missing' % rid)
        return self.rels[rid][1]

    def _run(self, e, p, href, outer):
        '''w:r; pdf2docx nests w:hyperlink/w:r in a formatted w:r: the outer formatting applies'''
        fmt = Run()
        if outer is not None:
            for k in Run.__slots__: setattr(fmt, k, getattr(outer, k))
        fmt.href, fmt.text, fmt.image, fmt.kind = href, '', None, 'text'
        rPr = e.find(w('rPr'))
        if rPr is not None: self._rpr(rPr, fmt)

        def emit(text, kind='text', image=None):
            if kind == 'text' and p.runs and p.runs[-1].kind == 'text' and getattr(p, '_last', None) is e:
                p.runs[-1].text += text
                return
            r = Run()
            for k in Run.__slots__: setattr(r, k, getattr(fmt, k))
            r.text, r.kind, r.image = text, kind, image
            p.runs.append(r)
            p._last = e
        for c in e:
            if c.tag == w('t'): emit(c.text or '')
            elif c.tag == w('tab'): emit('\t', 'tab')
            elif c.tag in (w('br'), w('cr')): emit('\n', 'br')
            elif c.tag == w('rPr'): continue
            elif c.tag == w('hyperlink'):
                h = self._href(c)
                for r in c:
                    if r.tag == w('r'): self._run(r, p, h, fmt)
            elif c.tag == w('drawing'):
                emit('', 'image', self._drawing(c))
            else:
                raise Malformed('unexpected element in run: %s' % c.tag)

    @staticmethod
    def _on(e):
        return e.get(w('val')) not in ('0', 'false', 'off', 'none')

    def _rpr(self, rPr, f):
        for c in rPr:
            t, v = c.tag, c.get(w('val'))
            if t == w('rFonts'): f.font, f.ea = c.get(w('ascii')), c.get(w('eastAsia'))
            elif t == w('sz'): f.size = _num(v) / 2
            elif t == w('w'): f.scale = _num(v)
            elif t == w('b'): f.bold = self._on(c)
            elif t == w('i'): f.italic = self._on(c)
            elif t == w('strike'): f.strike = self._on(c)
            elif t == w('color'): f.color = v.upper() if v else v
            elif t == w('u'):
                f.u, f.ucolor = v, (c.get(w('color')) or '').lstrip('#').upper() or None
            elif t == w('highlight'): f.hl = v
            elif t == w('shd'): f.shd = self._fill(c)

    def _fill(self, e):
        '''the colour shown by a shading'''
        fill = (e.get(w('fill')) or '').lstrip('#').upper()
        v = e.get(w('val'))
        if v in ('clear', None): return fill
        if v == 'nil': return None
        front = (e.get(w('color')) or 'auto').lstrip('#').upper()
        if front == 'AUTO': front = '000000'
        return front if v == 'solid' else '%s of %s on %s' % (v, front, fill)

    def _drawing(self, e):
        k = e[0]
        inline = k.tag == '{%s}inline' % WP
        ext = k.find('{%s}extent' % WP)
        cx, cy = _num(ext.get('cx')) / EMU, _num(ext.get('cy')) / EMU
        x = y = None
        if not inline:
            f = lambda t: _num(k.find('{%s}%s/{%s}posOffset' % (WP, t, WP)).text) / EMU
            x, y = f('positionH'), f('positionV')
        blips = k.findall('.//{%s}blip' % A)
        if not blips: raise Malformed('drawing without picture')
        rids = set(b.get('{%s}embed' % R) for b in blips)
        if len(rids) != 1: raise Malformed('drawing with several pictures')
        rid = blips[0].get('{%s}embed' % R)
        if rid not in self.rels: raise Malformed('picture relationship %s missing' % rid)
        target = posixpath.normpath(posixpath.join('word', self.rels[rid][1]))
        if target not in self.names: raise Malformed('picture part %s missing' % target)
        im = Image(inline, cx, cy, x, y, self.zip.read(target), rid, target)
        if not inline:
            im.frame = tuple(k.find('{%s}%s' % (WP, t)).get('relativeFrom') for t in ('positionH', 'positionV'))
            im.behind = k.get('behindDoc') in ('1', 'true', 'on')
            im.wraps = next((c.tag.split('}')[1] for c in k if c.tag.split('}')[1].startswith('wrap')), None) != 'wrapNone'
        x = k.find('.//{%s}xfrm' % A)
        im.changed = [n for n in ('rot', 'flipH', 'flipV') if x is not None and x.get(n) not in (None, '0', 'false')] + \
                     ['cropped' for c in k.iter('{%s}srcRect' % A) if any(v not in ('0', '') for v in c.attrib.values())]
        return im

    def _table(self, e):
        t = Table()
        tblPr, grid = e.find(w('tblPr')), e.find(w('tblGrid'))
        if grid is None: raise Malformed('table without grid')
        t.grid = [_num(g.get(w('w'))) for g in grid]
        t.grid = [g / 20 if g is not None else None for g in t.grid]
        if tblPr is not None and tblPr.find(w('tblInd')) is not None:
            t.ind = _dxa(tblPr.find(w('tblInd'))) or 0
        lay = tblPr.find(w('tblLayout')) if tblPr is not None else None
        t.fixed = lay is not None and lay.get(w('type')) == 'fixed'
        ncol = len(t.grid)
        above = {}
        for i, tr in enumerate(e.findall(w('tr'))):
            trPr = tr.find(w('trPr'))
            hh = trPr.find(w('trHeight')) if trPr is not None else None
            t.heights.append(_num(hh.get(w('val'))) / 20 if hh is not None else None)
            t.rules.append(hh.get(w('hRule')) if hh is not None else None)
            j, row, cur = 0, [], {}
            for tc in tr.findall(w('tc')):
                c = self._cell(tc)
                c.row, c.col = i, j
                row.append(c)
                t.all_cells.append(c)
                if c.vmerge == 'continue':
                    top = above.get(j)
                    if top is None or top.span != c.span:
                        raise Malformed('vMerge continues nothing at row %d col %d' % (i, j))
                    top.nrow += 1
                    cur[j] = top
                else:
                    t.cells.append(c)
                    if c.vmerge == 'restart': cur[j] = c
                j += c.span
            if j != ncol: raise Malformed('row %d spans %d of %d columns' % (i, j, ncol))
            above = cur
            t.rows.append(row)
        return t

    def _cell(self, tc):
        c = Cell()
        tcPr = tc.find(w('tcPr'))
        if tcPr is not None:
            for k in tcPr:
                v = k.get(w('val'))
                if k.tag == w('gridSpan'): c.span = int(v)
                elif k.tag == w('vMerge'): c.vmerge = v or 'continue'
                elif k.tag == w('tcW'): c.width = _dxa(k)
                elif k.tag == w('shd'): c.shd = self._fill(k)
                elif k.tag == w('textDirection'): c.dir = v
                elif k.tag == w('tcMar'):
                    c.mar = {m.tag.split('}')[1]: _dxa(m) or 0 for m in k}
                elif k.tag == w('tcBorders'):
                    for b in k:
                        side = b.tag.split('}')[1]
                        c.borders[side] = (_num(b.get(w('sz'))) / 8, (b.get(w('color')) or '').lstrip('#').upper(), b.get(w('val')))
        for k in tc:
            if k.tag == w('p'): c.items.append(self._para(k))
            elif k.tag == w('tbl'): c.items.append(self._table(k))
            elif k.tag != w('tcPr'): raise Malformed('unexpected element in cell: %s' % k.tag)
        if not c.items or c.items[-1].kind != 'p': raise Malformed('cell does not end with a paragraph')
        return c
