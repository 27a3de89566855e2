# -*- coding: utf-8 -*-
'''C26 settings'''
import os
import random
from .. import canon
from .. import common as M
from .. import conv, docxr
from .. import gen_doc as D
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf
from .c12 import SETTINGS

TITLE = 'Every setting acts as documented'
RULE = ('per setting a generated page on which exactly the quantity the setting is compared with is known; converted with values of the setting clearly below and above that quantity, and the '
        'documented outcome looked for on each side; plus explicit defaults, unknown names and settings which are not touched by a conversion; distinct by case')
NEED = {'flips': 300, 'neutral': 12}
KINDS = ('res', 'curve', 'small', 'width', 'connect', 'clear', 'shape', 'float', 'overlap', 'free', 'left', 'right', 'center', 'merge', 'separate', 'layout')


def cases(tier, rnd):
    k = 50 if tier == 'quick' else 250
    return M.mixed(rnd, [(k, {'kind': 'set', 'of': q}) for q in KINDS] + [(k, {'kind': 'neutral'})], enc=.25, rots=(0, 180))


class Test:
    '''name of the setting, the quantity, and what to expect: outcome(result) is True if the setting exceeds the quantity'''

    def __init__(self, name, q, pdf, outcome, hi=None, lo=None):
        self.name, self.q, self.pdf, self.outcome, self.hi, self.lo = name, q, pdf, outcome, hi, lo or q


def lattice(p, rnd, draw, n=None, m=None, x0=None, y0=None):
    '''draws the lines of a table by draw(x0, y0, x1, y1)'''
    n, m = n or rnd.randint(2, 4), m or rnd.randint(2, 4)
    x0, y0 = x0 or rnd.uniform(70, 110), y0 or rnd.uniform(250, 330)
    xs, ys = [x0], [y0]
    for _ in range(m): xs.append(xs[-1] + rnd.uniform(60, 90))
    for _ in range(n): ys.append(ys[-1] + rnd.uniform(28, 50))
    for y in ys: draw(xs[0], y, xs[-1], y)
    for x in xs: draw(x, ys[0], x, ys[-1])
    return xs, ys


def fill_cells(p, rnd, words, xs, ys):
    out = {}
    for i in range(len(ys) - 1):
        for j in range(len(xs) - 1):
            w = words(2, 3)
            p.text(xs[j] + 12, (ys[i] + ys[i + 1]) / 2 + 3, w, 'helv', 9)
            out[i, j] = w
    return out


def tables_of(sec): return [t for t in docxr.all_tables(sec.items)]


def has_grid(sec, words):
    '''whether the words are in different cells, with borders all around, of a table'''
    for t in tables_of(sec):
        if any(len(c.borders) != 4 for c in t.cells): continue
        own = {}
        for c in t.cells:
            for w in c.text.split(): own[w] = (c.row, c.col)
        if all(own.get(w) == k for k, w in words.items()): return True
    return False


def bordered(sec): return [t for t in tables_of(sec) if any(c.borders for c in t.cells)]


def images_of(sec): return [i for q in docxr.walk(sec.items) for i in q.images]


def para_with(sec, word):
    for q in docxr.walk(sec.items):
        if word in q.text: return q


def intro(p, rnd, words, y=60, n=2):
    b = T.paragraph(rnd, words, 72, 520, y, n, 11, ('helv',), trailing=False, last=(.92, 1.0))
    T.draw(p, b)
    return b


def make(kind, rnd, case):
    words = T.Words(rnd)
    pdf = Pdf()
    pdf.enc = case.get('enc')
    p = pdf.page(595, 842)
    intro(p, rnd, words)
    if kind == 'res':
        # a drawing: some closed curves one over the other
        x, y, w, h = rnd.uniform(90, 250), rnd.uniform(200, 400), rnd.uniform(80, 220), rnd.uniform(60, 200)
        for _ in range(rnd.randint(3, 6)):
            a, b = rnd.uniform(0, .5), rnd.uniform(0, .5)
            X0, Y0, X1, Y1 = x + w * a, y + h * b, x + w, y + h
            p.curve([(X0, Y0), (X0 + w / 2, Y0 - 5), (X1, Y0), (X1, Y1)], stroke=(.2, .3, .8), width=2)
            p.poly([(X0, Y0), (X1, Y1), (X0, Y1)], fill=(.9, .5, .3))
        return Test('clip_image_res_ratio', None, pdf, None)
    if kind == 'curve':
        n = []
        def draw(*a): n.append(a); p.line(*a)
        xs, ys = lattice(p, rnd, draw)
        m = rnd.randint(1, len(n) // 2)
        for _ in range(m):      # slanted lines from the top border on
            x = rnd.uniform(xs[0], xs[-1] - 20)
            p.line(x, ys[0], x + rnd.uniform(6, 14), ys[0] + rnd.uniform(5, 12))
        w = fill_cells(p, rnd, words, xs, ys)
        return Test('curve_path_ratio', m / (m + len(n)), pdf, lambda sec: (True if has_grid(sec, w) and not images_of(sec) else False if images_of(sec) and not bordered(sec) else None), hi=1)
    if kind == 'small':
        # a mark behind a character
        size = rnd.uniform(8, 16)
        y = rnd.uniform(150, 300)
        b = T.paragraph(rnd, words, 72, 500, y, 1, size, ('helv',), trailing=False)
        l = b.lines[0]
        chars = [c for c in l.spans[0].chars() if c[0] != ' ']
        if len(chars) < 10: return None
        k = rnd.randrange(2, len(chars) - 6)
        a0, a1 = chars[k][1], chars[k + rnd.choice((2, 3))][2]
        h = sum(T.vmetrics(size))
        p.rect(a0, b.top, a1, b.bottom, fill=(1, 1, 0))
        T.draw(p, b)
        q = max(a1 - a0, h)
        def outcome(sec): return not any(r.hl or r.shd for x in docxr.walk(sec.items) for r in x.runs)
        return Test('shape_min_dimension', q, pdf, outcome)
    if kind == 'shape':
        # a highlight, and a lower one of the same colour which begins in it and goes on beyond it: together they are the rectangle around both
        size, y = rnd.uniform(10, 16), rnd.uniform(150, 300)
        b = T.paragraph(rnd, words, 72, 500, y, 1, size, ('helv',), trailing=False)
        l = b.lines[0]
        chars = [c for c in l.spans[0].chars() if c[0] != ' ']
        if len(chars) < 24: return None
        k = rnd.randrange(1, 6)
        a0, a1 = chars[k][1], chars[k + 9][2]
        e = k + rnd.randint(13, 16)
        b1 = chars[e][2]
        q = rnd.uniform(.3, .7)
        b0 = a1 - (b1 - a1) * q / (1 - q)
        if b0 < a0 + 3 or a1 - b0 < 3 or chars[e][2] - a1 < 9: return None
        h = b.bottom - b.top
        t = rnd.uniform(.3, .42) * h
        m = rnd.uniform(b.top + .2 * h, b.bottom - .2 * h - t)
        colour = (rnd.random(), rnd.random(), 0)
        p.rect(a0, b.top, a1, b.bottom, fill=colour)
        p.rect(b0, m, b1, m + t, fill=colour)
        T.draw(p, b)
        def outcome(sec):
            runs = [r for x in docxr.walk(sec.items) if l.text.split()[0] in x.text for r in x.runs]
            hit = [bool(r.hl or r.shd) for r in runs for c in r.text if c != ' ']
            if not hit[k] or hit[e + 1]: return None
            return True if not any(hit[k + 10:e + 1]) else False if all(hit[k + 10:e + 1]) else None
        return Test('shape_merging_threshold', q, pdf, outcome, hi=1, lo=q * (b1 - b0) * t / ((b1 - a0) * h))
    if kind == 'width':
        w = rnd.uniform(2.2, 9)
        def draw(x0, y0, x1, y1):
            if y0 == y1: p.rect(x0 - w / 2, y0 - w / 2, x1 + w / 2, y0 + w / 2, fill=(.3, .3, .3))
            else: p.rect(x0 - w / 2, y0 - w / 2, x0 + w / 2, y1 + w / 2, fill=(.3, .3, .3))
        xs, ys = lattice(p, rnd, draw)
        cells = fill_cells(p, rnd, words, xs, ys)
        return Test('max_border_width', w, pdf, lambda sec: has_grid(sec, cells))
    if kind == 'connect':
        # inner lines which end at a distance of the outer ones; the documentation doesn't say where the distance is measured from
        w = .3
        q = rnd.uniform(1.2, 2.4)
        xs, ys = lattice(p, rnd, lambda *a: None)
        if abs(xs[-1] - 297.5) < 10: return None      # the middle of the page, where columns of a page are told apart
        for i, y in enumerate(ys):
            d = 0 if i in (0, len(ys) - 1) else q
            p.line(xs[0] + d, y, xs[-1] - d, y, width=w)
        for x in xs: p.line(x, ys[0] + q, x, ys[-1] - q, width=w)
        cells = fill_cells(p, rnd, words, xs, ys)
        return Test('connected_border_tolerance', q, pdf, lambda sec: has_grid(sec, cells), lo=(q - 2 * w) / 2, hi=q + 1)
    if kind == 'clear':
        # one line of the table drawn as two halves at a distance
        q = rnd.uniform(2.5, 9)
        xs, ys = lattice(p, rnd, lambda *a: None, n=rnd.randint(2, 3), m=rnd.randint(2, 3))
        k = rnd.randrange(1, len(ys) - 1)
        for i, y in enumerate(ys):
            if i == k:
                p.line(xs[0], y - q / 2, xs[1], y - q / 2)
                p.line(xs[1], y + q / 2, xs[-1], y + q / 2)
            else: p.line(xs[0], y, xs[-1], y)
        for x in xs: p.line(x, ys[0], x, ys[-1])
        cells = fill_cells(p, rnd, words, xs, ys)
        return Test('min_border_clearance', q, pdf, lambda sec: True if has_grid(sec, cells) else False if len(bordered(sec)) == 1 else None)
    if kind == 'float':
        q = rnd.uniform(2.5, 9)
        y = rnd.uniform(330, 400)
        size = rnd.uniform(14, 20)
        b = T.paragraph(rnd, words, 72, 520, y, 2, size, ('helv',), trailing=False)
        T.draw(p, b)
        w, h = rnd.uniform(80, 200), rnd.uniform(60, 150)
        i = pdf.add_image(8, 8, bytes(rnd.randrange(256) for _ in range(192)))
        x = rnd.uniform(90, 200)
        p.image(i, x, y + q - h, x + w, y + q)
        def outcome(sec):
            im = images_of(sec)
            return None if len(im) != 1 else bool(im[0].inline)
        return Test('float_image_ignorable_gap', q, pdf, outcome)
    if kind == 'overlap':
        q = rnd.uniform(.35, .75)
        size, y = rnd.uniform(9, 16), rnd.uniform(200, 400)
        a, b = words(3, 6), words(3, 6)
        wa, wb = T.width(a, 'helv', size), T.width(b, 'helv', size)
        x = rnd.uniform(90, 300)
        p.text(x, y, a, 'helv', size)
        p.text(x + wa - q * min(wa, wb), y, b, 'helv', size)
        return Test('line_overlap_threshold', q, pdf, lambda sec: True if a in M.sec_text(sec) and b in M.sec_text(sec) else False if a in M.sec_text(sec) else None, hi=1)
    if kind == 'free':
        # a paragraph, one line of which is shorter
        n, size = rnd.randint(4, 7), rnd.uniform(9, 12)
        x0, x1 = 72, 520
        b = T.paragraph(rnd, words, x0, x1, 300, n, size, ('helv',), trailing=False, full=(.985, 1.0), last=(.985, 1))
        k = rnd.randrange(1, n - 2)
        l = T.make_line(rnd, words, x0, x1 - x0, (x1 - x0) * rnd.uniform(.6, .88), ('helv',), size, trailing=False)
        T.shift(l, 0, b.lines[k].y)
        b.lines[k] = l
        T.draw(p, b)
        wd = max(q.ink_x1 for q in b.lines) - x0
        free = 1 - (l.ink_x1 - x0) / wd
        if not .06 < free < .43: return None      # (a line of about half the width ends its paragraph)
        last, first = l.text.split()[-1], b.lines[k + 1].text.split()[0]
        others = [(b.lines[i].text.split()[-1], b.lines[i + 1].text.split()[0]) for i in range(n - 1) if i != k]
        def outcome(sec):
            q = para_with(sec, last)
            if q is None or first not in q.text: return None
            t = q.text
            br = '\n' in t[t.index(last):t.index(first)]
            return not br
        return Test('line_free_space_ratio_threshold', free, pdf, outcome, hi=1)
    if kind in ('left', 'right', 'center'):
        q = rnd.uniform(1.4, 5)         # (less than 1 pt needs no tab)
        n, size = rnd.randint(4, 7), rnd.uniform(9, 12)
        x0, x1 = rnd.uniform(80, 150), rnd.uniform(330, 480)
        y = 300
        js = [0, q] + [rnd.uniform(0, q) for _ in range(n - 2)]
        rnd.shuffle(js)
        # the first line is not compared on the left, the last one on the right
        if kind == 'left' and js[0] in (0, q): i = next(i for i in range(1, n) if 0 < js[i] < q); js[0], js[i] = js[i], js[0]
        if kind == 'left' and js[0] in (0, q): i = next(i for i in range(1, n) if 0 < js[i] < q); js[0], js[i] = js[i], js[0]
        if kind == 'right' and js[-1] in (0, q): i = next(i for i in range(n - 1) if 0 < js[i] < q); js[-1], js[i] = js[i], js[-1]
        # MuPDF takes a line which starts away from the one above for another block
        for _ in range(200):
            if kind == 'left': box = [(x0 + j, x0 + j + rnd.uniform(.4, .95) * (x1 - x0)) for j in js]
            elif kind == 'right': box = [(x0 + rnd.uniform(0, 4), x1 + j) for j in js]
            else:
                ds = [rnd.uniform(0, 4) for _ in js]
                box = [(x0 + j - d, x1 + j + d) for j, d in zip(js, ds)]
            if max(abs(a[0] - b[0]) for a, b in zip(box, box[1:])) > 4.5: continue
            if kind != 'left' and max(a for a, b in box[1:]) - min(a for a, b in box[1:]) < 2: continue
            if kind != 'right' and max(b for a, b in box[:-1]) - min(b for a, b in box[:-1]) < 2: continue
            if kind != 'center' and max(a + b for a, b in box) - min(a + b for a, b in box) < 6: continue
            break
        else: return None
        ws = []
        for i, (a, c) in enumerate(box):
            l = T.make_line(rnd, words, a, c - a, c - a, ('helv',), size, trailing=False)
            tx = l.text
            ws.append(tx.split()[0])
            if ' ' not in tx: return None
            tw = (c - a - T.width(tx, 'helv', size)) / tx.count(' ')
            if tw > 6: return None
            p.text(a, y + i * size * 1.3, tx, 'helv', size, tw=tw)
        def outcome(sec):
            qs = [para_with(sec, w) for w in ws]
            if any(a is not qs[0] for a in qs): return None
            a = (qs[0].align or 'left')
            if kind == 'left': return True if a == 'left' and not qs[0].tabs else False if a == 'left' else None
            return True if a == kind else False if a == 'left' and qs[0].tabs else None
        return Test('lines_%s_aligned_threshold' % kind, q, pdf, outcome)
    if kind in ('merge', 'separate'):
        # a row of two texts (MuPDF itself joins what is closer than 15 pt)
        size = rnd.uniform(8, 12)
        q = rnd.uniform(max(16, 1.6 * size), 40)
        x, y = rnd.uniform(90, 150), rnd.uniform(250, 350)
        rows = []
        for i in range(rnd.randint(1, 4)):
            a = words(3, 6)
            b = words(3, 6)
            p.text(x, y, a, 'helv', size)
            p.text(x + T.width(a, 'helv', size) + q, y, b, 'helv', size)
            rows.append((a, b))
            y += size * 1.4
        def outcome(sec):
            got = set()
            for a, b in rows:
                c = para_with(sec, a)
                if c is None: return None
                t = c.text
                got.add(b in t and t.index(b) > t.index(a) and not t[t.index(a) + len(a):t.index(b)].strip(' '))
            return got.pop() if len(got) == 1 else None
        return Test('line_merging_threshold' if kind == 'merge' else 'line_separate_threshold', q, pdf, outcome)
    if kind == 'layout':
        # two texts side by side, the right one lower
        size = rnd.uniform(9, 14)
        h = sum(T.vmetrics(size))
        q = rnd.uniform(.15, .55)
        x, y, gap = rnd.uniform(90, 105), rnd.uniform(250, 350), rnd.uniform(25, 35)     # in the left half of the page
        a = T.make_line(rnd, words, x, 75, 70, ('helv',), size, trailing=False)
        b = T.make_line(rnd, words, x, 75, 70, ('helv',), size, trailing=False)
        if a is None or b is None: return None
        p.text(x, y, a.text, 'helv', size)
        p.text(a.ink_x1 + gap, y + (1 - q) * h, b.text, 'helv', size)
        def outcome(sec):
            qs = para_with(sec, a.text), para_with(sec, b.text)
            if None in qs: return None
            for t in tables_of(sec):
                k = [next((c for c in t.cells if q in c.paras), None) for q in qs]
                if None not in k and k[0] is not k[1]: return k[0].row != k[1].row
            return True
        return Test('float_layout_tolerance', q, pdf, outcome, hi=1)
    raise ValueError(kind)


def convert(res, data, settings, what):
    given = dict(settings)
    r = M.convert(res, data, 1, what, kwargs=settings)
    if settings != given: res.bad('mutated', '%s settings changed by the conversion: %s -> %s' % (what, given, settings))
    return r


def run(case):
    res, rnd = Result(), random.Random(case['seed'])
    if case['kind'] == 'neutral': return neutral(case, res, rnd)
    k = case['of']
    t = None
    for _ in range(300):
        t = make(k, rnd, case)
        if t is not None: break
    else: return res
    res.sig = [k, case['seed']]
    data = t.pdf.tobytes()
    if k == 'res':
        sizes = []
        for v in sorted(rnd.sample((.7, 1.0, 1.5, 2.0, 3.0, 4.0, 6.0), 3)):
            r = convert(res, data, {t.name: v}, '%s=%s' % (t.name, v))
            if r is None: return res
            im = images_of(r.docx.sections[0])
            if not im: res.bad('res', '%s=%s: no picture of the drawing' % (t.name, v)); return res
            for i in im:
                a = i.array()
                got = a.shape[1] / i.cx, a.shape[0] / i.cy
                tol = [2.2 / i.cx + .02 * v, 2.2 / i.cy + .02 * v]
                if abs(got[0] - v) > tol[0] or abs(got[1] - v) > tol[1]:
                    res.bad('res', '%s=%s: picture of %.1f x %.1f pt has %s pixels' % (t.name, v, i.cx, i.cy, a.shape[:2]))
                res.count('flips')
        res.count('kinds:' + k)
        return res
    vals = [(t.lo * rnd.uniform(.1, .75), False), (t.q * rnd.uniform(1.35, 3) if t.hi is None else t.q + (t.hi - t.q) * rnd.uniform(.25, .9), True)]
    if rnd.random() < .3: vals[0] = (rnd.choice((0, 0.0)), False)
    if rnd.random() < .3 and t.hi is None and int(vals[1][0]) >= 1.35 * t.q: vals[1] = (int(vals[1][0]), True) # any number will do
    for v, want in vals:
        what = '%s=%.3f with %.3f' % (t.name, v, t.q)
        r = convert(res, data, {t.name: v}, what)
        if r is None: return res
        got = t.outcome(r.docx.sections[0])
        if got != want: res.bad(k, '%s: outcome %s instead of %s' % (what, got, want))
        res.count('flips')
    res.count('kinds:' + k)
    return res


DEFAULTS = {'connected_border_tolerance': .5, 'max_border_width': 6.0, 'min_border_clearance': 2.0, 'float_image_ignorable_gap': 5.0, 'float_layout_tolerance': .1, 'page_margin_factor_top': .5,
            'page_margin_factor_bottom': .5, 'shape_merging_threshold': .5, 'shape_min_dimension': 2.0, 'line_overlap_threshold': .9, 'line_merging_threshold': 2.0, 'line_separate_threshold': 5.0,
            'lines_left_aligned_threshold': 1.0, 'lines_right_aligned_threshold': 1.0, 'lines_center_aligned_threshold': 2.0, 'clip_image_res_ratio': 3.0, 'curve_path_ratio': .2}


def neutral(case, res, rnd):
    '''the documented defaults given explicitly, and unknown names, make no difference'''
    pdf, truth = D.build(rnd, rnd.choice((1, 2, 3)))
    data = pdf.tobytes()
    res.sig = ['neutral', case['seed']]
    names = [n for n in DEFAULTS if rnd.random() < rnd.choice((.2, .5, 1))]
    some = {n: DEFAULTS[n] for n in names}
    if rnd.random() < .5: some['no_such_setting'] = rnd.random()
    if rnd.random() < .3: some['zero_based_index'] = True
    base = M.convert(res, data, None, 'without settings')
    if base is None: return res
    given = dict(some)
    r = M.convert(res, data, None, 'with defaults', kwargs=some)
    if r is None: return res
    if some != given: res.bad('mutated', 'settings changed by the conversion: %s -> %s' % (given, some))
    m = canon.first_diff(canon.sections(base.data), canon.sections(r.data))
    if m: res.bad('neutral', 'settings %s: %s' % (given, m))
    # nor does what a conversion before was given
    odd = dict(rnd.choice(SETTINGS))
    M.convert(res, data, None, 'with %s' % odd, kwargs=odd)
    r = M.convert(res, data, None, 'again')
    if r is None: return res
    m = canon.first_diff(canon.sections(base.data), canon.sections(r.data))
    if m: res.bad('neutral', 'after a conversion with %s: %s' % (odd, m))
    # not even by the same Converter
    from pdf2docx import Converter
    with conv.scratch() as d, conv.quiet():
        f = os.path.join(d, 'a.pdf')
        with open(f, 'wb') as g: g.write(data)
        cv = Converter(f)
        if rnd.random() < .5: cv.convert(os.path.join(d, 'a.docx'), kwargs=dict(odd))
        else: cv.extract_tables(kwargs=dict(odd))
        some = rnd.choice((None, {}, dict(some)))
        cv.convert(os.path.join(d, 'b.docx'), kwargs=some)
        cv.close()
        with open(os.path.join(d, 'b.docx'), 'rb') as g: got = g.read()
    m = canon.first_diff(canon.sections(base.data), canon.sections(got))
    if m: res.bad('neutral', 'after a conversion with %s by the same Converter: %s' % (odd, m))
    res.count('neutral')
    return res
