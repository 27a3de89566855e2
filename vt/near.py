# -*- coding: utf-8 -*-
'''Compares two sections of docx files, up to rounding.'''
import collections
from lxml import etree
from . import docxr
from .docxr import w

PIC = ('cx', 'cy')


def _value(k, a, b, tol):
    '''are the attribute (or text) values the same, up to ``tol`` points?'''
    if a == b: return True
    try: x, y = float(a), float(b)
    except ValueError: return False
    name = etree.QName(k).localname if k else ''
    t = tol * 12700 if name in PIC or abs(x) > 40000 or name == 'posOffset' else tol * 20
    if name == 'sz': t = tol * 8        # eighths of a point (borders) or half points
    if name in ('gridSpan',): t = 0
    return abs(x - y) <= t


def walk(a, b, tol, path='', skip=()):
    '''first difference of two elements, or None'''
    if a.tag != b.tag: return '%s: %s, %s' % (path, etree.QName(a).localname, etree.QName(b).localname)
    n = etree.QName(a).localname
    here = path + '/' + n
    for k in sorted(set(a.attrib) | set(b.attrib)):
        if etree.QName(k).localname in skip: continue
        u, v = a.get(k), b.get(k)
        if u is None or v is None or not _value(k, u, v, tol): return '%s@%s: %s, %s' % (here, etree.QName(k).localname, u, v)
    if a.tag in (w('t'), w('instrText')) or not len(a):
        u, v = a.text or '', b.text or ''
        if u != v and not (n == 'posOffset' and _value('posOffset', u, v, tol)): return '%s: %r, %r' % (here, u[:60], v[:60])
    if len(a) != len(b):
        f = lambda e: collections.Counter(etree.QName(c).localname for c in e)
        return '%s: children %s, %s; text %r' % (here, dict(f(a) - f(b)), dict(f(b) - f(a)), ''.join(a.itertext())[:60])
    for i, (x, y) in enumerate(zip(a, b)):
        d = walk(x, y, tol, here + '[%d]' % i, skip)
        if d: return d


def parse(canonical):
    root = etree.fromstring(b'<root>' + canonical + b'</root>')
    for p in root.iter(w('p')): _join(p)
    return root


def _join(p):
    '''how a text of one format is divided into runs makes no difference'''
    text = lambda r: len(r) == 2 and r[0].tag == w('rPr') and r[1].tag == w('t')
    prev = None
    for r in list(p):
        if r.tag == w('r') and text(r):
            if prev is not None and etree.tostring(prev[0], with_tail=False) == etree.tostring(r[0], with_tail=False):
                prev[1].text = (prev[1].text or '') + (r[1].text or '')
                p.remove(r)
            else: prev = r
        else: prev = None


def difference(a, b, tol, skip=()):
    '''a, b: canonical sections (canon.sections)'''
    return walk(parse(a), parse(b), tol, '', skip)


def summary(sec):
    '''what remains the same however the content is grouped: characters with their format, pictures, tables'''
    chars = collections.Counter()
    for p in docxr.walk(sec.items):
        for r in p.runs:
            for c in r.text:
                if not c.isspace(): chars[(c, r.font, r.size, r.bold, r.italic, r.color)] += 1
    pics = collections.Counter((round(i.cx), round(i.cy)) for p in docxr.walk(sec.items) for i in p.images)
    return chars, pics
