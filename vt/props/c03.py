# -*- coding: utf-8 -*-
'''C03 run formatting: font, size, weight, slant, colour of every character'''
import random
from .. import common as M
from .. import docxr
from .. import gen_table as G
from .. import gen_text as T
from ..core import Result
from ..pdfw import BASE14, Pdf

TITLE = 'Every character keeps font, size, bold, italic and colour'
RULE = ('generated lines in which font, weight, slant, size and colour (gray, RGB, CMYK) change between and inside words, in paragraphs, table cells, '
        'vertical and CJK text, subset and foreign font names; every character of the docx is compared with the character drawn; distinct by seed, '
        'non-trivial with at least 20 characters')
NEED = {'chars': 20000, 'changes': 400, 'bold': 2000, 'italic': 2000, 'scaled': 500}

# font name in the PDF -> name in the docx, bold, italic
FOREIGN = {'ABCDEF#2BCalibri-Bold': ('Calibri', True, False), 'QWERTY#2BGaramond': ('Garamond', False, False), 'ArialNarrow': ('Arial Narrow', False, False),
           'XYZABC#2BArialNarrow-Bold': ('Arial Narrow', True, False), 'Arial-BoldMT': ('Arial', True, False), 'FooBar-Italic': ('FooBar', False, True),
           'Georgia-BoldItalic': ('Georgia', True, True), 'SimSun': ('\u5b8b\u4f53', False, False), 'ABCDEF#2BKaiTi_GB2312': ('\u6977\u4f53_GB2312', False, False),
           'SimHei': ('\u9ed1\u4f53', False, False), 'STXingkai': ('\u534e\u6587\u884c\u6977', False, False), 'Microsoft#20YaHei-Bold': ('\u5fae\u8f6f\u96c5\u9ed1', True, False),
           'Verdana': ('Verdana', False, False)}
CMYK = [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 1, 0), (.2, .4, .6, .1), (0, 0, 0, .5)]


def cases(tier, rnd):
    k = 15 if tier == 'quick' else 60
    return M.mixed(rnd, [(14 * k, {'kind': 'mix'}), (8 * k, {'kind': 'sizes'}), (6 * k, {'kind': 'foreign'}), (6 * k, {'kind': 'table'}), (4 * k, {'kind': 'vertical'})], enc=.3)


def family(f):
    b = BASE14[f]
    return b.split('-')[0], 'Bold' in b, 'Oblique' in b or 'Italic' in b


def color(rnd):
    r = rnd.random()
    if r < .3: return (0, 0, 0)
    if r < .6: return rnd.choice(G.COLORS)
    if r < .8: return tuple(rnd.randrange(256) / 255.0 for _ in range(3))
    if r < .9: return (rnd.randrange(256) / 255.0,)
    return rnd.choice(CMYK)


def run(case):
    res, rnd, kind = Result(), random.Random(case['seed']), case['kind']
    pdf = Pdf()
    p = pdf.page(*rnd.choice(T.SIZES[:3]))
    words = T.Words(rnd)
    want = {}      # word -> [(font, size, bold, italic, colour) per character]
    fonts = list(BASE14)

    def put(word, fmts):
        want[word] = fmts

    if kind in ('mix', 'sizes'):
        y = 80.0
        while y < p.h - 100:
            x = rnd.uniform(50, 120)
            size = rnd.choice((8, 9, 10, 10.5, 11, 12, 14)) if kind == 'mix' else round(rnd.uniform(6, 18), rnd.choice((1, 2)))
            if y > 80: y += size * 1.1
            pool = [(rnd.choice(fonts), color(rnd)) for _ in range(rnd.randint(1, 4))]
            f, c = rnd.choice(pool)
            pieces = []   # (text, font, colour)
            wd = 0
            while True:
                w = words()
                if x + wd + T.width(w + ' ', 'cobo', size) > p.w - 60: break
                fm = []
                cut = rnd.randrange(len(w)) if rnd.random() < .3 else 0
                for i, ch in enumerate(w):
                    if i == cut and rnd.random() < .7:
                        f, c = rnd.choice(pool)
                        res.count('changes')
                    fm.append((f, c))
                    if pieces and pieces[-1][1:] == [f, c]: pieces[-1][0] += ch
                    else: pieces.append([ch, f, c])
                    wd += T.width(ch, f, size)
                pieces[-1][0] += ' '
                wd += T.width(' ', pieces[-1][1], size)
                put(w, [family(a) + (size, b) for a, b in fm])
                if rnd.random() < .15: break
            xx = x
            for s, a, b in pieces:
                p.text(xx, y, s, a, size, b)
                xx += T.width(s, a, size)
            y += size * rnd.uniform(.4, 2.5)
    elif kind == 'foreign':
        y = 80.0
        while y < p.h - 80:
            size = rnd.choice((8, 9.3, 10, 12.25, 14))
            f, c = rnd.choice(list(FOREIGN)), color(rnd)
            w = words()
            p.text(rnd.uniform(60, 90), y, w, f, size, c)
            n, b, i = FOREIGN[f]
            put(w, [(n, b, i, size, c)] * len(w))
            y += size * 2.2
    elif kind == 'vertical':
        x = 80.0
        while x < p.w - 80:
            size = rnd.choice((8, 9, 10.2, 12))
            f, c = rnd.choice(fonts), color(rnd)
            w = words()
            p.text(x, p.h - 100, w, f, size, c, vertical=True)
            put(w, [family(f) + (size, c)] * len(w))
            x += size * 2.5
            if len(want) > 4 and rnd.random() < .2: break
    else:
        y = 70.0
        size = rnd.choice((7, 8, 9.2, 10))
        cols = [color(rnd) for _ in range(4)]
        t = G.lattice(p, rnd, words, 60, p.w - 60, y, p.h - 60, fam=rnd.choice(tuple(T.FAMILY)), size=size, colors=cols, p_empty=.05)
        if t is None: res.inc = 'no table'; return res
        for c in t.cells:
            for b in c.blocks:
                for l in b.lines:
                    for s in l.spans:
                        for w in s.s.split(): put(w, [family(s.font) + (s.size, s.color)] * len(w))
    n = sum(len(v) for v in want.values())
    if n < 20: res.inc = 'nothing drawn'; return res
    r = M.convert(res, pdf.tobytes(), 1)
    if r is None: return res
    res.sig = [kind, case['seed']]
    res.note = '%s: %d words' % (kind, len(want))
    # characters of the docx with their run
    cmyk = lambda c: len(c) == 4
    todo = dict(want)
    for q in docxr.walk(r.docx.sections[0].items):
        chars = [(ch, k) for k in q.runs if k.kind in ('text', 'br', 'tab') for ch in k.text]
        i = 0
        while i < len(chars):
            if chars[i][0].isspace(): i += 1; continue
            j = i
            while j < len(chars) and not chars[j][0].isspace(): j += 1
            s = ''.join(ch for ch, _ in chars[i:j])
            # words at the end of a line may be glued to the next one
            while s:
                w = next((w for w in todo if s.startswith(w)), None)
                if w is None: break
                for (ch, k), e in zip(chars[i:i + len(w)], todo.pop(w)): one(res, ch, k, e, w)
                s, i = s[len(w):], i + len(w)
            if s: res.count('unmatched')
            i = j
    res.count('missing', len(todo))
    if todo: res.bad('lost', '%d of %d words not found, e.g. %r' % (len(todo), len(want), list(todo)[:4]))
    return res


def one(res, ch, k, e, w):
    font, bold, italic, size, col = e
    res.count('chars')
    if k.font != font or k.ea != font: res.bad('font', '%r of %r: font %r/%r instead of %r' % (ch, w, k.font, k.ea, font))
    if bool(k.bold) != bold: res.bad('bold', '%r of %r (%s): bold=%s' % (ch, w, font, k.bold))
    if bool(k.italic) != italic: res.bad('italic', '%r of %r (%s): italic=%s' % (ch, w, font, k.italic))
    if bold: res.count('bold')
    if italic: res.count('italic')
    if k.size is None or abs(k.size - size) > .26: res.bad('size', '%r of %r: size %s instead of %s' % (ch, w, k.size, size))
    else:
        eff = k.size * (k.scale if k.scale is not None else 100.0) / 100
        if k.scale is not None: res.count('scaled')
        if abs(eff - size) > .0101 * k.size: res.bad('scale', '%r of %r: size %s scaled by %s instead of %s' % (ch, w, k.size, k.scale, size))
    if len(col) == 4:
        res.count('cmyk')
        # conversion of gray and CMYK to RGB is up to MuPDF (ICC profiles): black stays nearly black, and so on
        if not G.same_color(k.color, col, 90): res.bad('cmyk', '%r of %r: colour %s instead of %s' % (ch, w, k.color, col))
    elif not G.same_color(k.color, col, 26 if len(col) == 1 else 1.01): res.bad('color', '%r of %r: colour %s instead of %s' % (ch, w, k.color, col))
