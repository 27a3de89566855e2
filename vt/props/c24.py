# -*- coding: utf-8 -*-
'''C24 contents of tables extracted without making a docx'''
import os
import random
from .. import common as M
from .. import conv, docxr
from .. import gen_doc as D
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf
from . import c05

TITLE = 'extract_tables gives the tables with rows, columns, merged cells and words'
RULE = ('generated documents of 1-4 pages with ruled tables of every kind of C05 (merged, nested, shaded, styled, with missing borders) between '
        'paragraphs, and sample files; the lists of extract_tables are compared with what was drawn and with the tables of the docx written for the '
        'same page, with and without extract_stream_table; distinct by seed, non-trivial with at least one table')
NEED = {'tables': 150, 'cells': 1500, 'merged': 100, 'docx tables': 150}
KINDS = ('plain', 'style', 'nested', 'rects', 'open', 'big', 'segments', 'picture', 'snug', 'vertical')


def cases(tier, rnd):
    k = 3 if tier == 'quick' else 60
    out = M.mixed(rnd, [(8 * k, {'kind': q}) for q in KINDS] + [(8 * k, {'kind': 'doc'})], enc=.3)
    return out + [{'kind': 'sample', 'index': i, 'seed': i} for i in range(len(D.samples(tier != 'quick')))]


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    from pdf2docx import Converter
    with conv.scratch() as d:
        path, truth = os.path.join(d, 'in.pdf'), None
        if kind == 'sample': path = D.samples(True)[case['index']]
        elif kind == 'doc': D.build(rnd, rnd.randint(1, 4))[0].save(path)
        else:
            pdf, truth = Pdf(), []
            words = T.Words(rnd)
            for _ in range(rnd.choice((1, 1, 2, 3))):
                p = pdf.page(*rnd.choice(T.SIZES))
                truth.append(c05.build(dict(case, kind='plain' if kind == 'picture' else kind), pdf, p, words, rnd)[2])
                if kind != 'picture': continue
                for c in (c for t in truth[-1] for c in t.cells if not c.words and not c.nested and rnd.random() < .7):
                    x0, y0, x1, y1 = t_box(truth[-1], c)
                    if min(x1 - x0, y1 - y0) < 14: continue
                    im = pdf.add_image(3, 3, bytes(rnd.randrange(256) for _ in range(27)))
                    p.image(im, x0 + 4, y0 + 4, x0 + rnd.uniform(10, x1 - x0 - 4), y0 + rnd.uniform(10, y1 - y0 - 4))
                    c.image = True
                    res.count('pictures')
            pdf.save(path)
        res.sig = [kind, case['seed']]
        with conv.quiet() as log:
            try:
                cv = Converter(path)
                n = len(cv)
                lattice = cv.extract_tables()
                every = [cv.extract_tables(pages=[i], kwargs={'extract_stream_table': True}) for i in range(n)]
                some = [cv.extract_tables(pages=[i]) for i in range(n)]
                cv.convert(os.path.join(d, 'o.docx'))
                cv.close()
            except Exception as e: res.bad('error', '%s: %r' % (kind, e)); return res
        if 'Ignore page' in log.getvalue(): res.bad('ignored', log.getvalue()[-300:]); return res
        doc = docxr.Docx(open(os.path.join(d, 'o.docx'), 'rb').read())
    if sum(some, []) != lattice: res.bad('pages', 'the tables of the document are not those of its pages')
    if truth is not None: drawn(res, kind, truth, some)
    if len(doc.sections) != n: res.bad('sections', '%d sections for %d pages' % (len(doc.sections), n)); return res
    for i, s in enumerate(doc.sections):
        if len(s.tables) != len(every[i]): res.bad('number', 'page %d: %d tables extracted, %d in the docx' % (i, len(every[i]), len(s.tables))); continue
        for k, (t, g) in enumerate(zip(s.tables, every[i])): same(res, 'page %d table %d' % (i, k), t, g)
        # those with borders only, in same order
        it = iter(every[i])
        if not all(any(g == q for q in it) for g in some[i]): res.bad('subset', 'page %d: ruled tables are not a part of all tables' % i)
    return res


def t_box(tabs, c): return next(t for t in tabs if c in t.cells).box(c)


def shape(g):
    '''2D list -> {(row, column): text} or None if not a grid'''
    if not isinstance(g, list) or not g or not all(isinstance(r, list) and len(r) == len(g[0]) for r in g): return None
    if not all(c is None or isinstance(c, str) for r in g for c in r): return None
    return {(i, j): c for i, r in enumerate(g) for j, c in enumerate(r) if c is not None}


def drawn(res, kind, truth, some):
    for i, (tabs, got) in enumerate(zip(truth, some)):
        if len(tabs) != len(got): res.bad('count:' + kind, 'page %d: %d tables drawn, %d extracted' % (i, len(tabs), len(got))); continue
        for k, (t, g) in enumerate(zip(tabs, got)):
            at = '%s page %d table %d (%s)' % (kind, i, k, t.mode)
            res.count('tables')
            s = shape(g)
            if s is None: res.bad('grid', '%s: not a list of rows' % at); continue
            if (len(g), len(g[0])) != (len(t.ys) - 1, len(t.xs) - 1) or set(s) != set(t.structure()):
                res.bad('structure', '%s: drawn %s, extracted %d x %d with %s' % (at, t.structure(), len(g), len(g[0]), sorted(s)))
                continue
            for c in t.cells:
                res.count('cells')
                if c.nr * c.nc > 1: res.count('merged')
                w = s[c.r, c.c].split()
                want = '<NEST TABLE>'.split() if c.nested else ['<image>'] if c.image else c.words
                if w != want: res.bad('words', '%s cell %s: %s' % (at, (c.r, c.c), M.diff(want, w)))


def same(res, at, t, g):
    '''a table of the docx and the extracted one'''
    s = shape(g)
    res.count('docx tables')
    if s is None: res.bad('grid', '%s: not a list of rows' % at); return
    st = t.structure()
    n, m = max(r + a for (r, c), (a, b) in st.items()), max(c + b for (r, c), (a, b) in st.items())
    if set(st) != set(s) or (n, m) != (len(g), len(g[0])):
        res.bad('docx-structure', '%s: %s in the docx, %d x %d with %s extracted' % (at, st, len(g), len(g[0]), sorted(s)))
        return
    for c in t.cells:
        a, b = M.squeeze(c.text), M.squeeze(s[c.row, c.col].replace('<NEST TABLE>', '').replace('<image>', ''))
        if a != b: res.bad('docx-text', '%s cell %s: %r in the docx, %r extracted' % (at, (c.row, c.col), a[:200], b[:200]))
        if s[c.row, c.col].count('<NEST TABLE>') != len(c.tables): res.bad('docx-nested', '%s cell %s: %d nested tables, extracted %r' % (at, (c.row, c.col), len(c.tables), s[c.row, c.col][:200]))
