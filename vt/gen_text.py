# -*- coding: utf-8 -*-
'''Generated pages of running text, with the ground truth of every word.'''
import fitz
from .pdfw import Pdf

FAMILY = {'helv': ('helv', 'hebo', 'heit', 'hebi'), 'tiro': ('tiro', 'tibo', 'tiit', 'tibi'), 'cour': ('cour', 'cobo', 'coit', 'cobi')}
_FONTS = {}


def font(name):
    if name not in _FONTS: _FONTS[name] = fitz.Font(name)
    return _FONTS[name]


def width(s, name, size):
    return sum(font(name).glyph_advance(ord(c)) for c in s) * size


LET = 'abcdeghkmnopqrsuvwxyzABCDEGHKLMNOPQRSTUVXYZ23456789'


class Words:
    '''Unique words: a counter in base 23 with a check letter, random tail.'''

    def __init__(self, rnd):
        self.rnd, self.n = rnd, 0

    def __call__(self, lo=2, hi=7):
        self.n += 1
        n, s = self.n, ''
        while n or len(s) < 2:
            s += 'bcdghkmnpqrsvwxzBDHKMNR'[n % 23]; n //= 23
        # "<counter>" + vowels only tail: no word is a prefix of another one followed by the next
        return s + ''.join(self.rnd.choice('aeouAEOU') for _ in range(self.rnd.randint(lo, hi)))


def vmetrics(size, name='helv'):
    '''(above, below) the baseline of the box which MuPDF gives to a character of this font.'''
    f = font(name)
    return f.ascender * size, -f.descender * size


class Span:
    __slots__ = ('s', 'font', 'size', 'color', 'x0', 'x1', 'y', 'tw')

    def __init__(self, s, font, size, color, x0, y, tw=0.0):
        self.s, self.font, self.size, self.color, self.x0, self.y, self.tw = s, font, size, color, x0, y, tw
        self.x1 = x0 + self.wd(s)

    def wd(self, s): return width(s, self.font, self.size) + self.tw * s.count(' ')

    def chars(self):
        '''(char, x0, x1)'''
        x = self.x0
        for c in self.s:
            x1 = x + self.wd(c)
            yield c, x, x1
            x = x1


class Line:
    def __init__(self, spans):
        self.spans = spans

    @property
    def x0(self): return self.spans[0].x0

    @property
    def x1(self): return self.spans[-1].x1

    @property
    def ink_x1(self):
        '''right edge without trailing blanks'''
        s = self.spans[-1]
        return s.x0 + s.wd(s.s.rstrip())

    @property
    def y(self): return self.spans[0].y

    @property
    def text(self): return ''.join(s.s for s in self.spans)

    @property
    def top(self): return min(s.y - vmetrics(s.size, s.font)[0] for s in self.spans)

    @property
    def bottom(self): return max(s.y + vmetrics(s.size, s.font)[1] for s in self.spans)


class Block:
    def __init__(self, lines, align, indent):
        self.lines, self.align, self.indent = lines, align, indent

    @property
    def text(self): return ''.join(l.text for l in self.lines)

    @property
    def top(self): return self.lines[0].top

    @property
    def bottom(self): return self.lines[-1].bottom


BLACK = (0, 0, 0)


def make_line(rnd, words, x0, avail, target, fonts, size, colors=(BLACK,), trailing=True, tok=None):
    '''One line of words from x0, at most ``avail`` wide, about ``target``; the baseline is set later.'''
    parts, wd = [], 0.0
    while True:
        f, c = rnd.choice(fonts), rnd.choice(colors)
        s = (tok or words)() + ' '
        ww = width(s, f, size)
        if parts and wd + ww > target: break
        if wd + ww > avail: break
        if parts and parts[-1][1:] == [f, c]: parts[-1][0] += s
        else: parts.append([s, f, c])
        wd += ww
        if len(parts) == 1 and wd > target: break
    if not parts:
        return None
    if not trailing: parts[-1][0] = parts[-1][0].rstrip()
    spans, x = [], x0
    for s, f, c in parts:
        spans.append(Span(s, f, size, c, x, 0.0))
        x = spans[-1].x1
    return Line(spans)


def shift(line, dx, y):
    for s in line.spans:
        s.x0 += dx; s.x1 += dx; s.y = y


def paragraph(rnd, words, x0, x1, y, n, size, fonts, align='left', lead=None, indent=0.0, colors=(BLACK,), trailing=True,
              full=(0.92, 1.0), last=(0.25, 0.8), tok=None):
    '''A paragraph between x0 and x1 whose first line box starts at y.'''
    lead = lead or size * 1.4
    up = max(vmetrics(size, f)[0] for f in fonts)
    lines = []
    for i in range(n):
        a = x0 + (indent if i == 0 else 0.0)
        avail = x1 - a
        frac = rnd.uniform(*(last if i == n - 1 else (0.975, 1.0) if align == 'justify' else full))
        l = make_line(rnd, words, a, avail, avail * frac, fonts, size, colors, trailing, tok)
        if l is None: break
        if align == 'justify' and i < n - 1:
            # the line of several ones which needs the least extra word space
            for _ in range(12):
                q = make_line(rnd, words, a, avail, avail, fonts, size, colors, trailing, tok)
                if q is not None and q.ink_x1 > l.ink_x1: l = q
        if align == 'justify' and i < n - 1:
            k = l.text.count(' ')
            if k:
                tw, x = (avail - (l.x1 - l.x0)) / k, a
                for s in l.spans:
                    s.tw, s.x0 = tw, x
                    s.x1 = x = x + s.wd(s.s)
        wd = (l.ink_x1 if align != 'left' else l.x1) - l.x0
        dx = {'left': 0.0, 'justify': 0.0, 'right': avail - wd, 'center': (avail - wd) / 2}[align]
        shift(l, dx, y + up + lead * i)
        lines.append(l)
    return Block(lines, align, indent) if lines else None


def draw(page, block):
    for l in block.lines:
        for s in l.spans: page.text(s.x0, s.y, s.s, s.font, s.size, s.color, tw=s.tw or None)


def fonts_of(rnd, fam, mix):
    f = FAMILY[fam]
    return [f[0]] * 3 + [rnd.choice(f)] if mix else [rnd.choice(f)]


def flow(page, rnd, words, top=None, bottom=None, left=None, right=None, mix=True, aligns=('left', 'left', 'center', 'right', 'indent'),
         trailing=True, maxlines=6, gap=(4, 26), sizes=(8, 9, 10, 10.5, 11, 12, 14, 16), colors=(BLACK,), tight=False, families=tuple(FAMILY)):
    '''Paragraphs from the top of the page to the bottom, non-overlapping line boxes.  -> list of Block'''
    left = left if left is not None else rnd.uniform(40, 110)
    right = right if right is not None else page.w - rnd.uniform(40, 110)
    y = top if top is not None else rnd.uniform(40, 90)
    bottom = bottom if bottom is not None else page.h - rnd.uniform(40, 90)
    out = []
    fam = rnd.choice(families)
    while True:
        size = rnd.choice(sizes)
        al = rnd.choice(aligns)
        fonts = fonts_of(rnd, fam, mix)
        h = max(sum(vmetrics(size, f)) for f in fonts)
        lead = h * (rnd.uniform(0.86, 1.0) if tight else rnd.uniform(1.0, 1.25))
        n = rnd.randint(1, maxlines)
        if y + lead * (n - 1) + h > bottom: break
        ind = {'indent': rnd.uniform(10, 36), 'justindent': rnd.uniform(3, 30), 'hang': -rnd.uniform(3, 30)}.get(al, 0.0)
        b = paragraph(rnd, words, left - min(ind, 0.0), right, y, n, size, fonts, {'indent': 'left', 'hang': 'left', 'justindent': 'justify'}.get(al, al),
                      lead, ind, colors, trailing)
        if b is None: break
        draw(page, b)
        out.append(b)
        y = b.bottom + rnd.uniform(*gap)
    return out


SIZES = ((595, 842), (612, 792), (842, 595), (420, 595), (792, 1224))
