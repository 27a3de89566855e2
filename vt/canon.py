# -*- coding: utf-8 -*-
'''Canonical form of the sections of a docx, so that two conversions can be compared byte by byte.

Relationship ids are replaced by what they point to, counters of pictures are dropped and the section break, which
python-docx puts into a paragraph of its own for all sections but the last one, is taken apart.'''
import copy
import hashlib
import io
import posixpath
import zipfile
from lxml import etree
from .docxr import A, R, W, WP, PIC, w

RID = ('{%s}embed' % R, '{%s}id' % R, '{%s}link' % R)


def sections(data, numbers=False):
    '''docx bytes -> list of canonical sections (bytes)'''
    z = zipfile.ZipFile(io.BytesIO(data))
    rels = {}
    for e in etree.fromstring(z.read('word/_rels/document.xml.rels')):
        if e.get('TargetMode') == 'External': rels[e.get('Id')] = 'ext:' + e.get('Target')
        else:
            t = posixpath.normpath(posixpath.join('word', e.get('Target')))
            rels[e.get('Id')] = 'sha:' + hashlib.sha1(z.read(t)).hexdigest() if t in z.namelist() else 'missing'
    body = etree.fromstring(z.read('word/document.xml')).find(w('body'))
    for e in body.iter():
        for k in RID:
            if e.get(k) is not None: e.set(k, rels.get(e.get(k), 'missing'))
        if e.tag in ('{%s}docPr' % WP, '{%s}cNvPr' % PIC) and not numbers:
            for k in ('id', 'name', 'descr'):
                if k in e.attrib: del e.attrib[k]
    out, cur = [], []

    def close(sect):
        sect = copy.deepcopy(sect)
        for e in sect.findall(w('type')): sect.remove(e)
        for k in list(sect.attrib): del sect.attrib[k]
        out.append(b'\n'.join(etree.tostring(x, method='c14n') for x in cur + [sect]))
        cur.clear()
    for e in list(body):
        if e.tag == w('sectPr'):
            close(e)
            continue
        s = e.find('%s/%s' % (w('pPr'), w('sectPr'))) if e.tag == w('p') else None
        if s is None: cur.append(e)
        else:
            pPr = s.getparent()
            pPr.remove(s)
            if len(pPr) == 0: e.remove(pPr)
            if len(e): cur.append(e)
            close(s)
    return out


def whole(data):
    '''everything a word processor sees: canonical sections plus the other parts, which never vary'''
    z = zipfile.ZipFile(io.BytesIO(data))
    rest = {n: hashlib.sha1(z.read(n)).hexdigest() for n in z.namelist() if n.startswith('word/') and not n.startswith('word/media')
            and n not in ('word/document.xml', 'word/_rels/document.xml.rels')}
    return sections(data, numbers=True), rest


def first_diff(a, b):
    '''message about the first difference of two lists of sections'''
    if len(a) != len(b): return '%d sections instead of %d' % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return 'section %d differs: ...%r instead of ...%r' % (i, y[max(0, k - 60):k + 60], x[max(0, k - 60):k + 60])
    return None
