# -*- coding: utf-8 -*-
'''What the property modules share.'''
import collections
import os
from . import conv, docxr


def seeds(rnd, n, **kw):
    return [dict(kw, seed=rnd.randrange(1 << 30)) for _ in range(n)]


ROTS = (0, 90, 180, 270)


def encoding(rnd, rots=ROTS):
    '''one of the ways to encode pages (see pdfw.ENC), which makes no difference to a viewer'''
    e = {}
    if rnd.random() < .5: e['rot'] = rnd.choice(rots)
    if rnd.random() < .4: e['origin'] = [rnd.choice((-300, -50, 7, 100, 1000)), rnd.choice((-400, -10, 25, 333))]
    if rnd.random() < .4: e['pad'] = [-rnd.randint(0, 90), -rnd.randint(0, 90), rnd.randint(0, 90), rnd.randint(0, 90)]
    if rnd.random() < .3: e['split'] = rnd.randint(2, 9)
    elif rnd.random() < .3: e['wrap'] = True
    if rnd.random() < .3: e['inherit'] = True
    if rnd.random() < .3: e['filt'] = rnd.choice(('ASCIIHexDecode', 'ASCII85Decode'))
    if rnd.random() < .3: e['plain'] = True
    if rnd.random() < .4: e['tj'] = rnd.choice(('hex', 'pieces', 'array', 'chars'))
    if rnd.random() < .4: e['scale'] = rnd.choice(([.1, .1], [.24, -.24], [1, -1], [72 / 25.4, -72 / 25.4], [.75, -.75], [2, 2], [.01, .01]))
    for k in ('cs', 'tf1', 'clip'):
        if rnd.random() < .25: e[k] = True
    if rnd.random() < .3: e['resave'] = rnd.choice(({'garbage': 4, 'deflate': True}, {'clean': True}, {'garbage': 3, 'deflate': True, 'clean': True}, {'linear': True},
                                                    {'encryption': 5, 'owner_pw': 'own', 'user_pw': ''}, {'encryption': 2, 'owner_pw': 'own', 'user_pw': ''}, {'ascii': True, 'deflate': True}))
    return {k: v for k, v in e.items() if v}


def mixed(rnd, plan, enc=0.0, rots=ROTS):
    '''plan: [(count, dict)] -> cases, interleaved so that a prefix samples every kind; enc: share of the cases with another encoding of the pages'''
    pools = [seeds(rnd, n, **kw) for n, kw in plan]
    out = []
    while any(pools):
        for p in pools:
            if p: out.append(p.pop())
    for c in out:
        if rnd.random() < (1 if os.environ.get('ALLENC') and enc else enc): c['enc'] = encoding(rnd, rots.get(c.get('kind'), ROTS) if isinstance(rots, dict) else rots)
    return out


def convert(res, pdf, npages=None, what='', **kw):
    '''Converts; anything which keeps pages from being converted is a violation (the input is a supported one).'''
    r = conv.convert(pdf, **kw)
    if r.error is not None:
        res.bad('error', '%s conversion failed: %s: %s' % (what, type(r.error).__name__, r.error))
        return None
    if r.ignored:
        res.bad('ignored', '%s page given up: %s' % (what, r.ignored[0]))
        return None
    if r.docx is None:
        res.bad('nodocx', '%s no docx written' % what)
        return None
    if npages is not None and len(r.docx.sections) != npages:
        res.bad('sections', '%s %d sections for %d pages' % (what, len(r.docx.sections), npages))
        return None
    res.count('pages', len(r.docx.sections))
    return r


def squeeze(s): return ''.join(s.split()).replace('\u00a0', '').replace('\xad', '-')


def sec_text(sec, sep=''):
    '''text of a section, in document order; ``sep`` between paragraphs'''
    return sep.join(p.text for p in docxr.walk(sec.items))


def words_of(sec): return sec_text(sec, '\n').split()


def diff(a, b):
    '''first difference of two sequences, for messages'''
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return 'at %d: expected %r, got %r' % (i, a[max(0, i - 2):i + 4], b[max(0, i - 2):i + 4])
    return 'expected %d items, got %d; first extra %r' % (len(a), len(b), (list(a)[len(b):] or list(b)[len(a):])[:4])


def counter_diff(a, b):
    '''multisets: what is missing in b, what is too much in b'''
    a, b = collections.Counter(a), collections.Counter(b)
    return dict(a - b), dict(b - a)


def close(a, b, tol): return a is not None and b is not None and abs(a - b) <= tol


def show(d, n=8):
    s = dict(list(d.items())[:n])
    return '%r%s' % (s, ' ... (%d)' % len(d) if len(d) > n else '')


def orders(lines, page):
    '''Admissible reading orders of the lines of a page: top to bottom, or - if no line in the middle crosses the centre of the page body -
    as two columns: what is above, the left column, the right column, what is below.  lines: objects with x0, ink_x1, top, bottom'''
    yield list(lines)
    a, b = min(72.0, min(l.x0 for l in lines)), min(72.0, page.w - max(l.x1 for l in lines) - 1)
    mid = (a + page.w - b) / 2
    cand = {mid + d for d in (-3, -2, -1, 0, 1, 2, 3)}
    for l in lines:
        for e in (l.x0, l.x1, l.ink_x1):
            if abs(e - mid) < 3: cand |= {e - .01, e + .01}
    for X in sorted(cand):
        side = [-1 if l.ink_x1 < X else 1 if l.x0 > X else 0 for l in lines]
        col = [l for l, s in zip(lines, side) if s]
        if not col: continue
        t, u = min(l.top for l in col), max(l.bottom for l in col)
        span = [l for l, s in zip(lines, side) if not s]
        if any(l.bottom > t + 3 and l.top < u - 3 for l in span): continue
        yield [l for l in span if l.top < t] + [l for l, s in zip(lines, side) if s < 0] + [l for l, s in zip(lines, side) if s > 0] + [l for l in span if l.top >= t]
