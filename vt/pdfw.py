# -*- coding: utf-8 -*-
'''A small PDF writer, independent of PyMuPDF and of the code under test.

All coordinates are *display* coordinates: points, origin at the top-left corner of the page as a viewer
shows it (i.e. after /Rotate), y downwards.  The writer emits the transformation for the page rotation and for
media boxes which do not start at (0,0).
'''
import math
import zlib
from . import rewrite

BASE14 = {
    'helv': 'Helvetica', 'hebo': 'Helvetica-Bold', 'heit': 'Helvetica-Oblique', 'hebi': 'Helvetica-BoldOblique',
    'tiro': 'Times-Roman', 'tibo': 'Times-Bold', 'tiit': 'Times-Italic', 'tibi': 'Times-BoldItalic',
    'cour': 'Courier', 'cobo': 'Courier-Bold', 'coit': 'Courier-Oblique', 'cobi': 'Courier-BoldOblique',
}
CJK = {'song': 'STSong-Light'}


def num(x):
    s = '%.4f' % x
    s = s.rstrip('0').rstrip('.')
    return '0' if s in ('-0', '') else s


def esc(b):
    return b.replace(b'\\', b'\\\\').replace(b'(', b'\\(').replace(b')', b'\\)').replace(b'\r', b'\\r').replace(b'\n', b'\\n')


# How pages are encoded, unless said otherwise: none of it changes what a viewer shows.
#   rot: /Rotate     origin: lower left corner of the page     pad: the media box is that much larger than the (crop) box of the page
#   split: content streams of a page     wrap: content in a form     inherit: boxes and resources in the page tree     tree: nested page tree
#   filt: filter of the content streams     tj: how text is shown     resave: options of PyMuPDF to write the file once more
#   scale: another unit and direction of the coordinate system     cs: colors by cs/sc     tf1: fonts scaled by the text matrix     clip: everything clipped to the page
ENC = {}


class PageW:
    def __init__(self, w, h, rotate=0, origin=(0, 0), crop=None):
        self.w, self.h, self.rotate, self.origin = w, h, rotate or ENC.get('rot', 0), origin if origin != (0, 0) else tuple(ENC.get('origin', (0, 0)))
        self.pad = None if crop else ENC.get('pad')
        self.tj, self.scale = ENC.get('tj'), ENC.get('scale', (1, 1))
        self.ops = []       # bytes
        self.fonts = set()
        self.images = []    # (name, image index)
        self.links = []     # (x0,y0,x1,y1, uri)
        self.raw_tail = b''
        self.share = None   # index of the page whose content streams are shared
        self.crop = crop
        self.form = 're'    # how rectangles are drawn
        self.res = {}       # further resources: {'Font': {'F1': '3 0 R'}}
        self.dict_extra = ''
        self.annots = []    # further annotations (references)
        self.form_names = []

    # ---- coordinates
    def Y(self, y): return self.h - y

    def ctm(self):
        W, H = self.w, self.h
        ox, oy = self.origin
        r = self.rotate % 360
        if r == 0: m = (1, 0, 0, 1, 0, 0)
        elif r == 90: m = (0, 1, -1, 0, H, 0)
        elif r == 180: m = (-1, 0, 0, -1, W, H)
        else: m = (0, -1, 1, 0, 0, W)
        return m[:4] + (m[4] + ox, m[5] + oy)

    def media(self):
        ox, oy = self.origin
        w, h = (self.h, self.w) if self.rotate % 180 else (self.w, self.h)
        return (ox, oy, ox + w, oy + h)

    def to_media(self, x, y):
        '''display point (top-left origin) -> media coordinates'''
        a, b, c, d, e, f = self.ctm()
        y = self.h - y
        return (a * x + c * y + e, b * x + d * y + f)

    # ---- drawing
    def op(self, s): self.ops.append(s if isinstance(s, bytes) else s.encode('latin-1'))

    @staticmethod
    def col(c, stroke):
        if isinstance(c, (int, float)): return '%s %s' % (num(c), 'G' if stroke else 'g')
        if len(c) == 1: return '%s %s' % (num(c[0]), 'G' if stroke else 'g')
        if len(c) == 3: return ' '.join(map(num, c)) + (' RG' if stroke else ' rg')
        return ' '.join(map(num, c)) + (' K' if stroke else ' k')

    def text(self, x, y, s, font='helv', size=11, color=(0, 0, 0), vertical=False, angle=None, tr=None, tz=None, tc=None, tw=None):
        '''``(x, y)``: baseline start.  vertical: text runs from bottom to top.'''
        self.fonts.add(font)
        if vertical: m = (0, 1, -1, 0)
        elif angle is not None:
            import math
            a = math.radians(angle)
            m = (math.cos(a), math.sin(a), -math.sin(a), math.cos(a))
        else: m = (1, 0, 0, 1)
        if font in CJK:
            code = [s.encode('utf-16-be')[i:i + 2] for i in range(0, 2 * len(s), 2)]
        else:
            code = [bytes([c]) for c in (s.encode('cp1252') if not isinstance(s, bytes) else s)]
        lit = lambda q, hx: b'<' + b''.join(q).hex().encode() + b'>' if hx else b'(' + esc(b''.join(q)) + b')'
        show = lit(code, font in CJK) + b' Tj'
        if self.tj and code:
            k = max(1, len(code) * 3 // 7)
            if self.tj == 'hex': show = lit(code, True) + b' Tj'
            elif self.tj == 'pieces': show = b' Tj '.join(lit(q, font in CJK) for q in (code[:k], code[k:]) if q) + b' Tj'
            elif self.tj == 'array': show = b'[' + b' 0 '.join(lit(q, font in CJK) for q in (code[:k], code[k:k + 1], code[k + 1:]) if q) + b'] TJ'
            elif self.tj == 'chars': show = b'[' + b''.join(lit([q], True) for q in code) + b'] TJ'
        o = 'BT %s /%s %s Tf %s %s %s Tm ' % (self.col(color, False), font, num(size),
             ' '.join(map(num, m)), num(x), num(self.Y(y)))
        if tr is not None: o += '%d Tr ' % tr
        if tz is not None: o += '%s Tz ' % num(tz)
        if tc is not None: o += '%s Tc ' % num(tc)
        if tw is not None: o += '%s Tw ' % num(tw)
        self.op(o.encode('latin-1') + show + (b' 0 Tr' if tr is not None else b'') +
            (b' 100 Tz' if tz is not None else b'') + (b' 0 Tc' if tc is not None else b'') +
                (b' 0 Tw' if tw is not None else b'') + b' ET')

    def rect(self, x0, y0, x1, y1, fill=None, stroke=None, width=1.0, form=None):
        '''form: re, neg (negative width and height), poly (closed by h), polyl (closed by a line), polyo (not closed, for filling only)'''
        o, form = '', form or self.form
        if fill is not None: o += self.col(fill, False) + ' '
        if stroke is not None: o += self.col(stroke, True) + ' %s w ' % num(width)
        if form == 're' or (form == 'polyo' and stroke is not None): o += '%s %s %s %s re ' % (num(x0), num(self.Y(y1)), num(x1 - x0), num(y1 - y0))
        elif form == 'neg': o += '%s %s %s %s re ' % (num(x1), num(self.Y(y0)), num(x0 - x1), num(y0 - y1))
        else:
            q = [(num(x), num(self.Y(y))) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
            o += '%s %s m %s %s l %s %s l %s %s l ' % (q[0] + q[1] + q[2] + q[3])
            if form == 'poly': o += 'h '
            elif form == 'polyl': o += '%s %s l ' % q[0]
        o += 'B' if fill is not None and stroke is not None else ('f' if fill is not None else 'S')
        self.op(o)

    def line(self, x0, y0, x1, y1, color=(0, 0, 0), width=1.0):
        self.op('%s %s w %s %s m %s %s l S' % (self.col(color, True), num(width),
                num(x0), num(self.Y(y0)), num(x1), num(self.Y(y1))))

    def poly(self, pts, fill=None, stroke=None, width=1.0, close=True):
        o = ''
        if fill is not None: o += self.col(fill, False) + ' '
        if stroke is not None: o += self.col(stroke, True) + ' %s w ' % num(width)
        o += '%s %s m ' % (num(pts[0][0]), num(self.Y(pts[0][1])))
        for x, y in pts[1:]: o += '%s %s l ' % (num(x), num(self.Y(y)))
        if close: o += 'h '
        o += 'B' if fill is not None and stroke is not None else ('f' if fill is not None else 'S')
        self.op(o)

    def curve(self, p, fill=None, stroke=None, width=1.0):
        '''p: four points of a Bezier curve'''
        o = ''
        if fill is not None: o += self.col(fill, False) + ' '
        if stroke is not None: o += self.col(stroke, True) + ' %s w ' % num(width)
        q = [(num(x), num(self.Y(y))) for x, y in p]
        o += '%s %s m %s %s %s %s %s %s c ' % (q[0] + q[1] + q[2] + q[3])
        o += 'B' if fill is not None and stroke is not None else ('f' if fill is not None else 'S')
        self.op(o)

    def image(self, idx, x0, y0, x1, y1, turn=0, mirror=False, angle=None, color=None):
        '''turn: quarter turns counterclockwise of what is shown in the box, mirrored from left to right afterwards; angle: turned around the centre of the box;
        color: of a stencil mask -> point of the page of a point (u, v) of the picture (from its top left corner)'''
        name = 'Im%d' % idx
        if name not in [n for n, _ in self.images]: self.images.append((name, idx))
        w, h = x1 - x0, y1 - y0

        def at(u, v):
            for _ in range(turn % 4): u, v = v, 1 - u
            if mirror: u = 1 - u
            x, y = x0 + u * w, y0 + v * h
            if angle is not None:
                cx, cy, cs, sn = (x0 + x1) / 2, (y0 + y1) / 2, math.cos(angle), math.sin(angle)
                x, y = cx + (x - cx) * cs + (y - cy) * sn, cy - (x - cx) * sn + (y - cy) * cs
            return x, y
        (ox, oy), (ax, ay), (bx, by) = at(0, 1), at(1, 1), at(0, 0)      # lower left corner, and the axes from there
        m = (ax - ox, oy - ay, bx - ox, oy - by, ox, self.Y(oy))
        self.op('q %s%s cm /%s Do Q' % (self.col(color, False) + ' ' if color else '', ' '.join(num(v) for v in m), name))
        return at

    def form_image(self, pdf, idx, x0, y0, x1, y1):
        '''the picture is part of a form, which has its own resources'''
        name = 'Fm%d' % len(pdf.forms)
        pdf.forms.append((idx, 'q %s 0 0 %s 0 0 cm /Im%d Do Q' % (num(x1 - x0), num(y1 - y0), idx), x1 - x0, y1 - y0))
        self.form_names.append((name, len(pdf.forms) - 1))
        self.op('q 1 0 0 1 %s %s cm /%s Do Q' % (num(x0), num(self.Y(y1)), name))

    def link(self, x0, y0, x1, y1, uri): self.links.append((x0, y0, x1, y1, uri))

    def boxes(self):
        '''(MediaBox, CropBox or None)'''
        m = self.media()
        if not self.pad: return m, self.crop
        return tuple(a + d for a, d in zip(m, self.pad)), m

    def content(self):
        m, body = self.ctm(), b'\n'.join(self.ops)
        sx, sy = self.scale
        if (sx, sy) != (1, 1) or ENC.get('cs') or ENC.get('tf1'): body = rewrite.rewrite(body, sx, sy, ENC.get('cs'), ENC.get('tf1'))
        m = (m[0] * sx, m[1] * sx, m[2] * sy, m[3] * sy, m[4], m[5])
        a = self.media()
        clip = '%s re W n\n' % ' '.join(map(num, (a[0], a[1], a[2] - a[0], a[3] - a[1]))) if ENC.get('clip') else ''
        return ('q %s%s cm\n' % (clip, ' '.join('%.8f' % v for v in m))).encode() + body + b'\nQ\n' + self.raw_tail


class Pdf:
    def __init__(self):
        self.pages = []
        self.images = []   # dict
        self.extra = []    # further objects
        self.forms = []

    def page(self, *a, **k):
        p = PageW(*a, **k)
        self.pages.append(p)
        return p

    def add_image(self, w, h, data, cs='DeviceRGB', smask=None, bpc=8, filt=None, mask=False, decode=None):
        '''data: raw samples (or an encoded stream, when filt is given); smask: raw 8-bit samples.'''
        self.images.append(dict(w=w, h=h, data=data, cs=cs, smask=smask, bpc=bpc, filt=filt, mask=mask, decode=decode))
        return len(self.images) - 1

    def add_object(self, body):
        '''any object -> its reference'''
        self.extra.append(body if isinstance(body, bytes) else body.encode('latin-1'))
        return '%d 0 R' % (2 + len(self.extra))

    def add_stream(self, d, data):
        return self.add_object(('<< %s /Length %d >>\nstream\n' % (d, len(data))).encode('latin-1') + data + b'\nendstream')

    def tobytes(self, compress=True):
        objs = []  # bytes of object i+1

        def add(b):
            objs.append(b)
            return len(objs)

        def stream(d, data, filt=None):
            if filt == 'ASCIIHexDecode': data = data.hex().encode() + b'>'
            elif filt == 'ASCII85Decode':
                import base64
                data = base64.a85encode(data) + b'~>'
            elif filt is None and compress and not ENC.get('plain'):
                data = zlib.compress(data); filt = 'FlateDecode'
            f = (' /Filter /%s' % filt) if filt else ''
            return ('<< %s%s /Length %d >>\nstream\n' % (d, f, len(data))).encode('latin-1') + data + b'\nendstream'

        cat = add(b''); pages = add(b'')
        for x in self.extra: add(x)
        fonts = {}
        for p in self.pages:
            for f in sorted(p.fonts):
                if f in fonts: continue
                if f in CJK:
                    fd = add(b'<< /Type /FontDescriptor /FontName /STSong-Light /Flags 4 /FontBBox [-25 -254 1000 880] '
                             b'/ItalicAngle 0 /Ascent 880 /Descent -120 /CapHeight 880 /StemV 93 >>')
                    de = add(('<< /Type /Font /Subtype /CIDFontType0 /BaseFont /STSong-Light /CIDSystemInfo << /Registry (Adobe) '
                              '/Ordering (GB1) /Supplement 4 >> /FontDescriptor %d 0 R /DW 1000 >>' % fd).encode())
                    fonts[f] = add(('<< /Type /Font /Subtype /Type0 /BaseFont /STSong-Light /Encoding /UniGB-UCS2-H '
                                    '/DescendantFonts [%d 0 R] >>' % de).encode())
                else:
                    base = BASE14.get(f, f)
                    fonts[f] = add(('<< /Type /Font /Subtype /Type1 /BaseFont /%s /Encoding /WinAnsiEncoding >>' % base).encode())
        ims = []
        for im in self.images:
            d = '/Type /XObject /Subtype /Image /Width %d /Height %d' % (im['w'], im['h'])
            if im['mask']: d += ' /ImageMask true /BitsPerComponent 1'
            else: d += ' /ColorSpace %s /BitsPerComponent %d' % (im['cs'] if im['cs'][0] == '[' else '/' + im['cs'], im['bpc'])
            if im['decode']: d += ' /Decode [%s]' % im['decode']
            if im['smask'] is not None:
                s = add(stream('/Type /XObject /Subtype /Image /Width %d /Height %d /ColorSpace /DeviceGray /BitsPerComponent 8'
                               % (im['w'], im['h']), im['smask']))
                d += ' /SMask %d 0 R' % s
            ims.append(add(stream(d, im['data'], im['filt'])))
        fms = [add(stream('/Type /XObject /Subtype /Form /BBox [0 0 %s %s] /Resources << /XObject << /Im%d %d 0 R >> >>' % (num(w), num(h), i, ims[i]), o.encode()))
               for i, o, w, h in self.forms]
        kids, contents = [], []
        for p in self.pages:
            if p.share is not None: c = contents[p.share]
            else:
                body = p.content()
                k = ENC.get('split', 1)
                if k > 1 and b'\n' in body:
                    ls = body.split(b'\n')
                    cut = sorted({len(ls) * i // k for i in range(k + 1)})
                    c = '[%s]' % ' '.join('%d 0 R' % add(stream('', b'\n'.join(ls[u:v]), ENC.get('filt'))) for u, v in zip(cut, cut[1:]))
                elif not ENC.get('wrap'): c = '%d 0 R' % add(stream('', body, ENC.get('filt')))
                else: c = body
            contents.append(c)
            annots = []
            for x0, y0, x1, y1, uri in p.links:
                a, b = p.to_media(x0, y0), p.to_media(x1, y1)
                r = (min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]))
                annots.append(add(('<< /Type /Annot /Subtype /Link /Rect [%s] /Border [0 0 0] /A << /Type /Action /S /URI /URI (%s) >> >>'
                                   % (' '.join(map(num, r)), esc(uri.encode('latin-1')).decode('latin-1'))).encode('latin-1')))
            src = self.pages[p.share] if p.share is not None else p
            rd = {'Font': {f: '%d 0 R' % fonts[f] for f in sorted(src.fonts)}}
            if src.images: rd['XObject'] = {n: '%d 0 R' % ims[i] for n, i in src.images}
            for n, i in src.form_names: rd.setdefault('XObject', {})[n] = '%d 0 R' % fms[i]
            for k, v in src.res.items(): rd.setdefault(k, {}).update(v)
            res = ' '.join('/%s << %s >>' % (k, ' '.join('/%s %s' % kv for kv in v.items())) for k, v in rd.items())
            media, crop = p.boxes()
            box = '/MediaBox [%s]' % ' '.join(map(num, media))
            if crop: box += ' /CropBox [%s]' % ' '.join(map(num, crop))
            if isinstance(c, bytes):
                fm = add(stream('/Type /XObject /Subtype /Form /BBox [%s] /Resources << %s >>' % (' '.join(map(num, media)), res), c))
                c, res = '%d 0 R' % add(stream('', b'/VtAll Do')), '/XObject << /VtAll %d 0 R >>' % fm
            own = '%s /Rotate %d /Resources << %s >>' % (box, p.rotate, res)
            parent = pages
            if ENC.get('inherit'):
                parent, me = len(objs) + 1, len(objs) + 2
                add(('<< /Type /Pages /Parent %d 0 R /Count 1 /Kids [%d 0 R] %s >>' % (pages, me, own)).encode())
                own = ''
            kid = add(('<< /Type /Page /Parent %d 0 R %s /Contents %s /Annots [%s] %s >>'
                % (parent, own, c, ' '.join(['%d 0 R' % a for a in annots] + p.annots), p.dict_extra)).encode())
            kids.append(parent if ENC.get('inherit') else kid)
        objs[cat - 1] = ('<< /Type /Catalog /Pages %d 0 R >>' % pages).encode()
        objs[pages - 1] = ('<< /Type /Pages /Count %d /Kids [%s] >>' % (len(kids), ' '.join('%d 0 R' % k for k in kids))).encode()
        out = bytearray(b'%PDF-1.5\n%\xe2\xe3\xcf\xd3\n')
        offs = []
        for i, o in enumerate(objs):
            offs.append(len(out))
            out += ('%d 0 obj\n' % (i + 1)).encode() + o + b'\nendobj\n'
        x = len(out)
        out += ('xref\n0 %d\n0000000000 65535 f \n' % (len(objs) + 1)).encode()
        for o in offs: out += ('%010d 00000 n \n' % o).encode()
        out += ('trailer\n<< /Size %d /Root %d 0 R >>\nstartxref\n%d\n%%%%EOF\n' % (len(objs) + 1, cat, x)).encode()
        out = bytes(out)
        if ENC.get('resave'):
            import fitz
            d = fitz.open(stream=out, filetype='pdf')
            out = d.tobytes(**ENC['resave'])
            d.close()
        return out

    def save(self, path, **k):
        with open(path, 'wb') as f: f.write(self.tobytes(**k))
        return path
