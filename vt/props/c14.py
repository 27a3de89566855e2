# -*- coding: utf-8 -*-
'''C14 fault isolation'''
import os
import random
import fitz
from .. import canon, conv, docxr
from .. import common as M
from .. import gen_doc as D
from .. import gen_text as T
from ..core import Result
from ..pdfw import Pdf

TITLE = 'Unusual pages are converted; a failing page never costs the others'
RULE = ('hostile: pages of ordinary paragraphs plus random legal but unusual content (degenerate paths, tiny, huge, masked and broken pictures, Type 3 and unnamed fonts, control '
        'characters, forms, patterns, shadings, clips, annotations, links of all kinds, odd boxes) must be converted with all their paragraphs; faults: errors injected into PyMuPDF and '
        'python-docx calls of random pages, serially and with multi-processing: all other pages must come out as without the fault; distinct by case')
NEED = {'hostile': 100, 'elements': 400, 'injected': 60, 'survivors': 100}
CASE_LIMIT = 180


def cases(tier, rnd):
    k = 2 if tier == 'quick' else 20
    return M.mixed(rnd, [(160 * k, {'kind': 'hostile'}), (60 * k, {'kind': 'fault'}), (12 * k, {'kind': 'fault_mp'}), (12 * k, {'kind': 'fault_docx'}), (6 * k, {'kind': 'all'})])


# ---------------------------------------------------------------- unusual content
def g(rnd, a=0, b=600): return '%.3f' % rnd.uniform(a, b)


def degenerate(pdf, p, rnd):
    x, y = g(rnd), g(rnd)
    return rnd.choice(['%s %s 0 0 re f' % (x, y), '%s %s 0 20 re f' % (x, y), '%s %s 30 0 re S' % (x, y), '%s %s m f' % (x, y), '%s %s m h S' % (x, y), '%s %s m %s %s l f' % (x, y, x, y),
                       '%s %s m %s %s l S' % (x, y, x, y), '%s %s 0 0 re B' % (x, y), '%s %s m %s %s l h B' % (x, y, x, g(rnd)), '0 w %s %s m %s %s l S' % (x, y, x, g(rnd)),
                       '%s %s m %s %s %s %s %s %s c S' % (x, y, x, y, x, y, x, y), '%s %s m %s %s m %s %s m S' % (x, y, x, y, x, y), 'n', '%s %s -5 -7 re B*' % (x, y),
                       '%s %s m 10 10 20 20 v 30 30 40 40 y b*' % (x, y), '1e-7 0 0 1e-7 0 0 cm 1 1 5 5 re f', '-50 -60 20 20 re f', '99999 99999 5 5 re S', '-100000 %s 200000 .5 re f' % y,
                       '%s %s 20 20 re W n' % (x, y), '[3 2] 0 d %s %s 50 20 re S' % (x, y), '1 J 2 j %s %s 20 20 re S' % (x, y), '100 w 50 50 m 52 50 l S'])


def picture(pdf, p, rnd):
    k = rnd.randrange(11)
    w, h = rnd.choice(((1, 1), (1, 40), (40, 1), (3, 5), (64, 64)))
    if k == 0: i = pdf.add_image(w, h, bytes(w * h), cs='DeviceGray')
    elif k == 1: i = pdf.add_image(w, h, bytes(w * h * 4), cs='DeviceCMYK')
    elif k == 2: i = pdf.add_image(8, 8, bytes(rnd.randrange(256) for _ in range(8)), mask=True)
    elif k == 3: i = pdf.add_image(8, 8, bytes(rnd.randrange(256) for _ in range(8)), cs='DeviceGray', bpc=1)
    elif k == 4: i = pdf.add_image(w, h, b'', cs='DeviceRGB')                       # no data
    elif k == 5: i = pdf.add_image(w, h, b'garbage', cs='DeviceRGB', filt='DCTDecode')
    elif k == 6: i = pdf.add_image(w, h, b'garbage', cs='DeviceRGB', filt='FlateDecode')
    elif k == 7: i = pdf.add_image(w, h, bytes(w * h * 3), smask=bytes(w * h))
    elif k == 8: i = pdf.add_image(4, 4, bytes(48), decode='1 0 1 0 1 0')
    elif k == 9:                                                                     # soft mask of another size
        i = pdf.add_image(4, 4, bytes(48))
        m = pdf.add_stream('/Type /XObject /Subtype /Image /Width 2 /Height 2 /ColorSpace /DeviceGray /BitsPerComponent 8', bytes(4))
        n = pdf.add_stream('/Type /XObject /Subtype /Image /Width 4 /Height 4 /ColorSpace /DeviceRGB /BitsPerComponent 8 /SMask %s' % m, bytes(48))
        p.res.setdefault('XObject', {})['Sm'] = n
        return 'q 40 0 0 40 %s %s cm /Sm Do Q' % (g(rnd), g(rnd))
    else:       # (no inline images: page.get_image_bbox() of PyMuPDF 1.23.7 reads freed memory on them, valgrind says)
        n = pdf.add_stream('/Type /XObject /Subtype /Image /Width 2 /Height 2 /ColorSpace [/Indexed /DeviceRGB 1 <FF000000FF00>] /BitsPerComponent 8', b'\0\1\1\0')
        p.res.setdefault('XObject', {})['Ix'] = n
        return 'q 40 0 0 40 %s %s cm /Ix Do Q' % (g(rnd), g(rnd))
    n = 'Im%d' % i
    p.images.append((n, i))
    a = rnd.choice(('30 0 0 20', '30 0 0 20', '0 30 -20 0', '20 20 -20 20', '-30 0 0 20', '30 0 0 -20', '0 0 0 0', '.001 0 0 .001', '3000 0 0 3000', '1 0 0 500'))
    return 'q %s %s %s cm /%s Do Q' % (a, g(rnd, -50, 700), g(rnd, -50, 900), n)


def fontobj(pdf, p, rnd):
    k = rnd.randrange(6)
    name = 'X%d' % len(pdf.extra)
    if k == 0:
        c = pdf.add_stream('', b'600 0 0 0 500 500 d1 0 0 500 500 re f')
        f = '<< /Type /Font /Subtype /Type3 /FontBBox [0 0 600 600] /FontMatrix [.001 0 0 .001 0 0] /CharProcs << /a %s >> /Encoding << /Type /Encoding /Differences [97 /a] >> /FirstChar 97 /LastChar 97 /Widths [600] %s >>' % (c, rnd.choice(('', '/Name /T3')))
    elif k == 1: f = '<< /Type /Font /Subtype /Type1 /BaseFont /Nowhere-Font >>'
    elif k == 2: f = '<< /Type /Font /Subtype /TrueType /BaseFont /ABCDEF+ >>'
    elif k == 3: f = '<< /Type /Font /Subtype /TrueType >>'
    elif k == 4:
        m = pdf.add_stream('', b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap 1 begincodespacerange <00> <ff> endcodespacerange '
                           b'3 beginbfchar <61> <0001> <62> <001b> <63> <fffe> endbfchar endcmap end end')
        f = '<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /ToUnicode %s >>' % m
    else: f = '<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding << /Differences [97 /nosuchglyph /.notdef /space] >> >>'
    p.res.setdefault('Font', {})[name] = pdf.add_object(f)
    return 'BT /%s %s Tf %s %s Td (%s) Tj ET' % (name, rnd.choice(('10', '8.5', '-9', '0', '24')), g(rnd), g(rnd, 0, 60), rnd.choice(('aaa', 'abcabc', 'a', '', '\\001\\002', 'b c a')))


def text(pdf, p, rnd):
    p.fonts.add('helv')
    s = rnd.choice(('xyz', '\\000\\001\\002', '\\033[31m', ' ', '', '\\t\\t', '\\r\\n', '\\255\\255', '<&>"', '\\177\\200\\201', '(nested)', 'a' * 300, '\\013\\014'))
    return rnd.choice(['BT /helv %s Tf %s %s Td (%s) Tj ET' % (rnd.choice(('9', '0', '-9', '.01', '.2', '24')), g(rnd), g(rnd, 0, 60), s),
                       'BT /helv 9 Tf 3 Tr %s %s Td (%s) Tj 0 Tr ET' % (g(rnd), g(rnd, 0, 60), s), 'BT /helv 9 Tf 7 Tr %s %s Td (%s) Tj ET' % (g(rnd), g(rnd, 0, 60), s),
                       'BT /helv 9 Tf 1 0 .3 1 %s %s Tm (%s) Tj ET' % (g(rnd), g(rnd, 0, 60), s), 'BT /helv 9 Tf -1 0 0 1 %s %s Tm (%s) Tj ET' % (g(rnd), g(rnd, 0, 60), s),
                       'BT /helv 9 Tf 0 -1 1 0 %s %s Tm (%s) Tj ET' % (g(rnd), g(rnd, 0, 60), s), 'BT /helv 9 Tf -900 -900 Td (%s) Tj ET' % s, 'BT /helv 9 Tf 0 0 0 0 20 20 Tm (%s) Tj ET' % s,
                       'BT /helv 9 Tf 50 Tz 9 Tc 20 Tw 5 Ts %s %s Td (%s) Tj ET' % (g(rnd), g(rnd, 0, 60), s), 'BT /nofont 9 Tf 20 20 Td (%s) Tj ET' % s,
                       '/Span << /ActualText (abc) >> BDC BT /helv 9 Tf %s %s Td (%s) Tj ET EMC' % (g(rnd), g(rnd, 0, 60), s), 'BT ET BT /helv 9 Tf ET'])


def paint(pdf, p, rnd):
    k = rnd.randrange(6)
    n = 'P%d' % len(pdf.extra)
    if k == 0:
        p.res.setdefault('Shading', {})[n] = '<< /ShadingType 2 /ColorSpace /DeviceRGB /Coords [0 0 100 100] /Function << /FunctionType 2 /Domain [0 1] /C0 [1 0 0] /C1 [0 0 1] /N 1 >> >>'
        return 'q 20 20 60 10 re W n /%s sh Q' % n
    if k == 1:
        f = pdf.add_stream('/Type /Pattern /PatternType 1 /PaintType 1 /TilingType 1 /BBox [0 0 5 5] /XStep 5 /YStep 5 /Resources << >>', b'1 0 0 rg 0 0 3 3 re f')
        p.res.setdefault('Pattern', {})[n] = f
        return '/Pattern cs /%s scn 100 20 60 20 re f 0 g' % n
    if k == 2:
        f = pdf.add_stream('/Type /XObject /Subtype /Form /BBox [0 0 50 50] /Matrix [1 0 0 1 %s 20] /Resources << >>' % g(rnd), b'1 0 0 RG 0 0 m 40 40 l S 5 5 10 10 re f')
        p.res.setdefault('XObject', {})[n] = f
        return '/%s Do' % n
    if k == 3:
        p.res.setdefault('ExtGState', {})[n] = '<< /CA .5 /ca 0 /BM /Multiply /SMask /None >>'
        return 'q /%s gs 20 20 50 20 re f Q' % n
    if k == 4:
        p.res.setdefault('ColorSpace', {})[n] = '[/Separation /Spot /DeviceCMYK << /FunctionType 2 /Domain [0 1] /C0 [0 0 0 0] /C1 [0 1 1 0] /N 1 >>]'
        return '/%s cs .7 scn 20 20 50 20 re f 0 g' % n
    return rnd.choice(('/Nothing Do', '/OC /Foo BDC 10 10 5 5 re f EMC', '/Gone gs 0 0 1 1 re f', 'q q q Q Q Q', '1 2 3 unknownop', 'BX foo EX', '0.2 0.3 0.4 0.5 k 30 30 50 9 re f 0 g', '/Pattern cs /No scn 5 5 5 5 re f 0 g'))


def annot(pdf, p, rnd):
    r = '/Rect [%s %s %s %s]' % (g(rnd, 0, 300), g(rnd, 0, 40), g(rnd, 300, 500), g(rnd, 40, 60))
    a = rnd.choice(['/Subtype /Link %s /A << /S /URI /URI (http://e.org/) >>' % r, '/Subtype /Link %s /A << /S /URI >>' % r, '/Subtype /Link %s /A << /S /URI /URI () >>' % r,
                    '/Subtype /Link %s /Dest [0 /Fit]' % r, '/Subtype /Link %s /A << /S /GoToR /F (x.pdf) /D [0 /Fit] >>' % r, '/Subtype /Link %s /A << /S /Launch /F (x.exe) >>' % r,
                    '/Subtype /Link %s /A << /S /Named /N /NextPage >>' % r, '/Subtype /Text %s /Contents (note)' % r, '/Subtype /Highlight %s /QuadPoints [10 10 50 10 10 20 50 20] /C [1 1 0]' % r,
                    '/Subtype /Square %s /C [1 0 0] /BS << /W 2 >>' % r, '/Subtype /Line %s /L [10 10 50 50]' % r, '/Subtype /Ink %s /InkList [[1 1 9 9]]' % r, '/Subtype /FreeText %s /DA (/Helv 9 Tf) /Contents (free)' % r,
                    '/Subtype /Widget /FT /Tx /T (f) /V (value) %s' % r, '/Subtype /Link /Rect [0 0 0 0] /A << /S /URI /URI (http://e.org/zero) >>', '/Subtype /Link /Rect [500 60 10 20] /A << /S /URI /URI (http://e.org/swap\\351) >>',
                    '/Subtype /Link %s /A << /S /URI /URI (http://e.org/%s) >>' % (r, 'x' * 3000), '/Subtype /Link %s /A << /S /JavaScript /JS (app.alert) >>' % r])
    p.annots.append(pdf.add_object('<< /Type /Annot %s >>' % a))
    return ''


def box(pdf, p, rnd):
    p.dict_extra += rnd.choice((' /UserUnit 2', ' /Tabs /S', ' /Group << /S /Transparency /CS /DeviceRGB >>', ' /TrimBox [0 0 10 10]', ' /ArtBox [5 5 1 1]', ' /StructParents 0', ' /Trans << /S /Wipe >>', ' /BleedBox [-10 -10 9999 9999]'))
    return ''


KINDS = [degenerate, degenerate, picture, picture, fontobj, text, text, paint, annot, box]


def hostile(case, res, rnd):
    pdf, words, marks = Pdf(), T.Words(rnd), []
    used = []
    for _ in range(rnd.randint(1, 3)):
        p = pdf.page(*rnd.choice(T.SIZES[:3]))
        bl = T.flow(p, rnd, words, top=60, bottom=p.h - 90, aligns=('left',), maxlines=4, colors=((0, 0, 0), (.2, .2, .6)))
        marks.append([w for b in bl for l in b.lines for w in l.text.split()])
        for _ in range(rnd.randint(1, 8)):
            f = rnd.choice(KINDS)
            s = f(pdf, p, rnd)
            used.append(f.__name__)
            if s: p.op('q ' + s + ' Q')
            res.count('elements')
    res.count('hostile')
    res.note = 'paragraphs and ' + ' '.join(used)
    r = M.convert(res, pdf.tobytes(), len(pdf.pages), res.note)
    if r is None: return
    for k, (ws, s) in enumerate(zip(marks, r.docx.sections)):
        # (stray lines may cut words into pieces: not a single character must get lost)
        miss = M.counter_diff(''.join(ws), M.squeeze(M.sec_text(s)))[0]
        if miss: res.bad('lost', '%s: page %d lost %d characters: %s' % (res.note, k, sum(miss.values()), M.show(miss)))
        res.count('characters', sum(map(len, ws)))


# ---------------------------------------------------------------- faults
class Boom(Exception):
    pass


def names(*a): return [n for n in a]


FAULTS = {'text': ('Page', ('get_text', 'getText', 'get_textpage', 'getTextPage')), 'drawings': ('Page', ('get_drawings', 'getDrawings', 'get_cdrawings')),
          'links': ('Page', ('get_links', 'getLinks')), 'images': ('Page', ('get_images', 'getImageList', 'get_image_list'))}


def inject(cls, meths, pages, count):
    '''Makes the methods of a PyMuPDF class fail on some pages -> undo function'''
    saved = []
    for m in meths:
        if not hasattr(cls, m): continue
        f = getattr(cls, m)
        saved.append((m, f, m in cls.__dict__))

        def bad(self, *a, _f=f, **k):
            if self.number in pages:
                count[0] += 1
                raise Boom('injected into page %d' % self.number)
            return _f(self, *a, **k)
        setattr(cls, m, bad)

    def undo():
        for m, f, own in saved:
            if own: setattr(cls, m, f)
            else: delattr(cls, m)
    return undo


def fault(case, res, rnd):
    from pdf2docx import Converter
    kind = case['kind']
    with conv.scratch() as d, conv.quiet() as log:
        pdf, truth = D.build(rnd, rnd.choice((2, 3, 4, 6, 6, 12)), kinds=('text', 'marks', 'table', 'stream', 'image', 'vector', 'float', 'mixed', 'columns'))
        path = pdf.save(os.path.join(d, 'in.pdf'))
        out = os.path.join(d, 'o.docx')
        cv = Converter(path)
        cv.convert(out)
        if 'gnore page' in log.getvalue(): res.bad('ignored', 'page given up'); return
        full = canon.sections(open(out, 'rb').read())
        n = len(full)
        bad = set(range(n)) if kind == 'all' else set(rnd.sample(range(n), rnd.randint(1, n - 1)))
        count = [0]
        res.note = '%d pages, %s' % (n, kind)
        if kind == 'fault_docx':
            # creating the docx fails in the middle of some pages
            import docx
            from docx.text.paragraph import Paragraph
            from docx.document import Document
            which = rnd.choice(('run', 'table', 'para'))
            cls, m = {'run': (Paragraph, 'add_run'), 'table': (Document, 'add_table'), 'para': (Document, 'add_paragraph')}[which]
            f = getattr(cls, m)
            k0 = rnd.randint(1, 12)
            st = {'n': 0}

            def g(self, *a, **k):
                st['n'] += 1
                if st['n'] == k0:
                    count[0] += 1
                    raise Boom('injected')
                return f(self, *a, **k)
            setattr(cls, m, g)
            undo = lambda: setattr(cls, m, f)
            what = '%s call %d of %s' % (res.note, k0, m)
        else:
            which = rnd.choice(list(FAULTS))
            undo = inject(fitz.Page, FAULTS[which][1], bad, count)
            what = '%s, %s of pages %s fail' % (res.note, which, sorted(bad))
        old = rnd.random() < .5
        with open(out, 'wb') as f2: f2.write(b'old docx')
        err = None
        try:
            if kind == 'fault_mp': cv.convert(out, kwargs={'multi_processing': True, 'cpu_count': rnd.choice((1, 2, 4))})
            else:
                if rnd.random() < .5:
                    cv.close()
                    cv = Converter(path)
                cv.convert(out)
        except Exception as e: err = e
        finally:
            undo()
        res.sig = [kind, case['seed']]
        if kind == 'fault_docx':
            if not count[0]: res.count('unused'); return
        elif kind != 'fault_mp' and not count[0]: res.count('unused'); return
        res.count('injected')
        if kind == 'all':
            if err is None: res.bad('accepted', '%s: no error' % what)
            if open(out, 'rb').read() != b'old docx': res.bad('old', '%s: the existing docx was touched' % what)
            # the converter still works
            cv.convert(out)
            m = canon.first_diff(full, canon.sections(open(out, 'rb').read()))
            if m: res.bad('after', '%s: conversion after the fault: %s' % (what, m))
            return
        if err is not None: res.bad('error', '%s: %r' % (what, err)); return
        got = canon.sections(open(out, 'rb').read())
        if kind == 'fault_docx':
            # at most one page is incomplete
            keep, best = 0, 0
            rest = list(got)
            miss = []
            for i, s in enumerate(full):
                if s in rest: del rest[:rest.index(s) + 1]
                else: miss.append(i)
            res.count('survivors', n - len(miss))
            if len(miss) > 1: res.bad('others', '%s: pages %s are not as without the fault' % (what, miss))
            return
        want = [s for i, s in enumerate(full) if i not in bad]
        res.count('survivors', len(want))
        m = canon.first_diff(want, got)
        if m: res.bad('others', '%s: %s' % (what, m))
        # later on the pages are fine again
        cv.convert(out)
        m = canon.first_diff(full, canon.sections(open(out, 'rb').read()))
        if m: res.bad('after', '%s: conversion after the fault: %s' % (what, m))
        cv.close()


def run(case):
    res, rnd = Result(), random.Random(case['seed'])
    if case['kind'] == 'hostile':
        hostile(case, res, rnd)
        res.sig = ['hostile', case['seed']]
    else: fault(case, res, rnd)
    return res
