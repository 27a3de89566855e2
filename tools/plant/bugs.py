# -*- coding: utf-8 -*-
'''The planted bugs: see plant.py'''
P = 'pdf2docx/'
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits={P + f: [e] if isinstance(e, tuple) else e for f, e in edits.items()},
                     demo=demo, needs=needs, breaks=breaks))


GRID = '''
def grid(p, xs, ys, skip_h=(), skip_v=(), x=None):
    \'\'\'unit lines; skip_h: (row line, column), skip_v: (row, column line)\'\'\'
    for i, y in enumerate(ys):
        for j in range(len(xs) - 1):
            if (i, j) not in skip_h: p.line(xs[j], y, xs[j + 1], y)
    for i in range(len(ys) - 1):
        for j, x in enumerate(xs):
            if (i, j) not in skip_v: p.line(x, ys[i], x, ys[i + 1])
'''

bug('c03-scale-5', 'C03', {'text/TextSpan.py': ('if abs(scale-1.0)>=0.01:', 'if abs(scale-1.0)>=0.05:')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
for k, z in enumerate((10.25, 12, 7.25, 9.75, 11.2)): p.text(60, 100 + 40 * k, 'Words of size %g here' % z, size=z)
d = convert(pdf.tobytes())
bad = []
for q in docxr.walk(d.sections[0].items):
    for r in q.runs:
        if not r.text.strip(): continue
        z = float(q.text.split()[3])
        if abs(r.size * (r.scale or 100) / 100 / z - 1) > 0.011: bad.append((z, r.size, r.scale))
done(not bad, bad)
''', 'font sizes more than 1 % but less than 5 % off a multiple of 0.5 pt', 'characters get another size (the character scaling is omitted)')

bug('c12-segments', 'C12', {'converter.py': ('seg_size = int(num_pages/cpu) + 1', 'seg_size = max(int(num_pages/cpu), 1)')}, '''
pdf = pdfw.Pdf()
for k in range(7): pdf.page(595, 842).text(60, 110, 'page number %d' % k)
b = pdf.tobytes()
one = convert(b, 'a')
two = convert(b, 'b', kwargs=dict(multi_processing=True, cpu_count=2))
f = lambda d: [words(s) for s in d.sections]
done(f(one) == f(two) and len(one.sections) == 7, f(two))
''', 'multi-processing with more pages than processes, not divisible by their count', 'the last pages get lost')

bug('c16-stale-rotation', 'C16', {'page/RawPage.py': ('''        Element.set_rotation_matrix(self.fitz_page.rotationMatrix)
''', '''        if self.fitz_page.rotation: Element.set_rotation_matrix(self.fitz_page.rotationMatrix)
''')}, '''
def page(pdf, rot):
    p = pdf.page(595, 842, rotate=rot)
    for k in range(4): p.text(60, 110 + 30 * k, 'line %d of the page' % k)
f = lambda s: [(q.text, q.left, q.before) for q in docxr.walk(s.items)]
a = pdfw.Pdf()
page(a, 0)
ref = f(convert(a.tobytes(), 'a').sections[0])
b = pdfw.Pdf()
page(b, 90)
page(b, 0)
d = convert(b.tobytes(), 'b')
done(len(d.sections) == 2 and f(d.sections[1]) == ref, [f(s) for s in d.sections])
''', 'a page without rotation parsed after a rotated one', 'the page is converted with the rotation of the page before')

bug('c14-first-failure', 'C14', {'converter.py': ('''        for i, idx in enumerate(indexes, start=1):
            print(f'\\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
            try:
                self._pages[idx].parse(kwargs)
            except Exception as e:
                print(f'\\nIgnore page due to error: {e}', flush=True)
''', '''        try:
            for i, idx in enumerate(indexes, start=1):
                print(f'\\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
                self._pages[idx].parse(kwargs)
        except Exception as e:
            print(f'\\nIgnore page due to error: {e}', flush=True)
''')}, '''
pdf = pdfw.Pdf()
for k in range(3): pdf.page(595, 842).text(60, 110, 'page number %d' % k)
with open(path('a.pdf'), 'wb') as f: f.write(pdf.tobytes())
with quiet():
    cv = Converter(path('a.pdf'))
    def boom(*a, **k): raise RuntimeError('broken page')
    cv[1].parse = boom
    cv.convert(path('a.docx'))
d = docxr.Docx(open(path('a.docx'), 'rb').read())
w = [words(s) for s in d.sections]
done(w == [['page', 'number', '0'], ['page', 'number', '2']], w)
''', 'a page that fails to be parsed, with further pages behind it', 'all pages behind the failing one are lost')

bug('c08-cropped', 'C08', {'image/ImagesExtractor.py': ('if not bbox.intersects(page.rect): continue', 'if not page.rect.contains(bbox): continue')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
i = pdf.add_image(4, 4, bytes(range(48)))
j = pdf.add_image(5, 4, bytes(range(60)))
p.text(60, 110, 'some text on this page')
p.image(i, 60, 200, 160, 300)
p.image(j, 480, 400, 640, 500)
d = convert(pdf.tobytes())
n = sum(len(q.images) for q in docxr.walk(d.sections[0].items))
done(n == 2, n)
''', 'a picture which is partly outside the page', 'the picture is missing in the docx')

bug('c06-border-two', 'C06', {'table/TableStructure.py': ('return border_strokes[0] if len(properties)==1 else Stroke()', 'return border_strokes[0] if len(properties)<=2 else Stroke()')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
xs, ys = [60, 160, 260, 360], [100, 130, 160]
R, B, K = (1, 0, 0), (0, 0, 1), (0, 0, 0)
# second row: one cell over all columns; the line above it has several colours
for j in range(3):
    p.line(xs[j], 100, xs[j + 1], 100)
    p.line(xs[j], 130, xs[j + 1], 130, color=(R, B, B)[j])
    p.line(xs[j], 160, xs[j + 1], 160)
for x in xs: p.line(x, 100, x, 130)
for x in (60, 360): p.line(x, 130, x, 160)
for j in range(3): p.text(xs[j] + 5, 118, 'c%d' % j)
p.text(70, 148, 'one')
t = convert(pdf.tobytes()).sections[0].tables[0]
c = t.cell(1, 0)
done('top' not in c.borders or not c.borders['top'] or c.borders['top'][1] is None, c.borders)
''', 'the side of a merged cell along which the neighbours have borders of two colours', 'one colour is set for the whole side')

bug('c09-light', 'C09', {'image/ImagesExtractor.py': ('cv.threshold(gauss, 250, 255, cv.THRESH_BINARY_INV)', 'cv.threshold(gauss, 235, 255, cv.THRESH_BINARY_INV)')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
p.text(60, 110, 'some text on this page')
p.curve([(150, 300), (150, 150), (350, 150), (350, 300)], fill=(.97, .95, .93))
d = convert(pdf.tobytes())
n = [(i.cx, i.cy) for q in docxr.walk(d.sections[0].items) for i in q.images]
done(len(n) == 1 and n[0][0] > 150, n)
''', 'a drawing in light colours', 'no picture of the drawing in the docx')

bug('c11-negative-pages', 'C11', {'converter.py': ('indexes = [int(x) for x in pages if 0<=x<pdf_len]', 'indexes = [int(x) for x in pages if -pdf_len<=x<pdf_len]')}, '''
pdf = pdfw.Pdf()
for k in range(4): pdf.page(595, 842).text(60, 110, 'page number %d' % k)
d = convert(pdf.tobytes(), pages=[-2, 1])
w = [words(s)[-1] for s in d.sections]
done(w == ['1'], w)
''', 'a negative number in pages', 'out-of-range page numbers select pages counted from the end')

bug('c20-count', 'C20', {'text/TextBlock.py': ('self.line_space += self.before_space / count', 'self.line_space += self.before_space / max(count-1, 1)')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
for k in range(2): p.text(60, 90 + 54 * k, 'line number %d of the heading' % k, size=36)
d = convert(pdf.tobytes(), kwargs={'page_margin_factor_top': 1.0})
q = [q for q in docxr.walk(d.sections[0].items) if 'line' in q.text]
h = sum(x.before + x.line * max(1, x.text.count('number')) for x in q)
done(len(q) == 1 and abs(h - 103.5) < 2, (h, [(x.text, x.before, x.line) for x in q]))
''', 'a paragraph of widely spaced lines close to what is above it', 'the lines come too high')

bug('c01-half', 'C01', {'text/TextSpan.py': ('if char.get_main_bbox(rect, constants.FACTOR_A_HALF):', 'if char.get_main_bbox(rect, constants.FACTOR_MAJOR):')}, GRID + '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
xs, ys = [60, 260, 460], [100, 130, 160]
grid(p, xs, ys)
import fitz
w = fitz.get_text_length('wide text over', fontsize=11)
m = fitz.get_text_length('m', fontsize=11)
p.text(260 - w - .6 * m, 120, 'wide text overmright')
for k, (x, y) in enumerate(((65, 150), (265, 150))): p.text(x, y, 'cell%d' % k)
d = convert(pdf.tobytes())
t = ''.join(words(d.sections[0]))
done(sorted(t) == sorted('widetextovermrightcell0cell1'), t)
''', 'a character 60 % in one table cell and 40 % in the next', 'the character gets lost')

bug('c01-remainder', 'C01', {'page/Blocks.py': ("""                    lines = not_table_lines
                    # NOTE""", """                    # NOTE""")}, GRID + '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
grid(p, [60, 260, 460], [108, 130, 160])
for k in range(3): p.text(65, 96 + 12.5 * k, 'word%d' % k)
for k, (x, y) in enumerate(((65, 150), (265, 122), (265, 150))): p.text(x, y, 'cell%d' % k)
t = sorted(words(convert(pdf.tobytes()).sections[0]))
done(t == ['cell0', 'cell1', 'cell2', 'word0', 'word1', 'word2'], t)
''', 'a block of lines of which some are in a table and some outside', 'lines in the table come a second time beside it')

bug('c10-factor', 'C10', {'page/Page.py': ("bottom *= self.settings['page_margin_factor_bottom']", "bottom *= self.settings['page_margin_factor_top']")}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
p.text(60, 110, 'first line')
p.text(60, 802, 'last line')
s = convert(pdf.tobytes(), kwargs={'page_margin_factor_top': 0.2, 'page_margin_factor_bottom': 1.0}).sections[0]
done(abs(s.bottom - 36.7) < 3, s.bottom)
''', 'different factors for top and bottom margin', 'the bottom margin is reduced by the factor of the top margin')

bug('c26-falsy', 'C26', {'page/Page.py': ('if settings: default.update(settings)', 'if settings: default.update({k:v for k,v in settings.items() if v})')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
p.text(60, 110, 'first line')
p.text(60, 802, 'last line')
s = convert(pdf.tobytes(), kwargs={'page_margin_factor_bottom': 0.0}).sections[0]
done(s.bottom == 0, s.bottom)
''', 'a setting with the value 0', 'the default is used instead of the value 0')

bug('c16-settings', 'C16', {'page/Page.py': ("""        # update parameters
        self.settings = self.init_settings(settings)
""", """        # update parameters
        self.settings.update(settings or {})
""")}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
p.text(60, 110, 'first line')
p.text(60, 802, 'last line')
with open(path('a.pdf'), 'wb') as f: f.write(pdf.tobytes())
with quiet():
    cv = Converter(path('a.pdf'))
    cv.convert(path('a.docx'), kwargs={'page_margin_factor_bottom': 1.0})
    cv.convert(path('b.docx'))
    cv.close()
f = lambda n: docxr.Docx(open(path(n), 'rb').read()).sections[0].bottom
done(abs(f('b.docx') - f('a.docx') / 2) < 1, (f('a.docx'), f('b.docx')))
''', 'a second conversion by the same Converter, without the settings of the first one', 'settings of the first conversion are used for the second one')

bug('c13-break', 'C13', {'text/Line.py': ("            'line_break': self.line_break,\n", '')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
for k, s in enumerate(('a short line', 'a line of the same paragraph which is very much longer than the line above it', 'short again', 'and another line of this paragraph which is very much longer than the others')): p.text(60, 110 + 12.5 * k, s)
with open(path('a.pdf'), 'wb') as f: f.write(pdf.tobytes())
with quiet():
    cv = Converter(path('a.pdf'))
    cv.convert(path('a.docx'))
    cv.serialize(path('a.json'))
    cv.close()
    cv = Converter(path('a.pdf'))
    cv.deserialize(path('a.json'))
    cv.make_docx(path('b.docx'))
    cv.close()
f = lambda n: [q.text for q in docxr.walk(docxr.Docx(open(path(n), 'rb').read()).sections[0].items)]
done(f('a.docx') == f('b.docx') and any('\\n' in x for x in f('a.docx')), (f('a.docx'), f('b.docx')))
''', 'a paragraph with line breaks, stored and restored', 'the restored paragraph has no line breaks, or others')

bug('c21-end', 'C21', {'main.py': ("""            if end: end -= 1
            if pages: pages = [i-1 for i in pages]

        cv = Converter(pdf_file)
        tables""", """            if pages: pages = [i-1 for i in pages]

        cv = Converter(pdf_file)
        tables""")}, GRID + '''
pdf = pdfw.Pdf()
for k in range(3):
    p = pdf.page(595, 842)
    grid(p, [60, 260, 460], [100, 130, 160])
    for i, (x, y) in enumerate(((65, 120), (65, 150), (265, 120), (265, 150))): p.text(x, y, 'p%dc%d' % (k, i))
with open(path('a.pdf'), 'wb') as f: f.write(pdf.tobytes())
from pdf2docx.main import PDF2DOCX
with quiet(): t = PDF2DOCX.table(path('a.pdf'), start=1, end=3, zero_based_index=False)
done([x[0][0] for x in t] == ['p0c0', 'p1c0'], t)
''', 'tables of a range of pages, counted from one', 'the page after the range is included')

bug('c15-layout', 'C15', {'converter.py': ("if not layout_file: layout_file  = os.path.join(path, 'layout.json')", "if not layout_file: layout_file  = 'layout.json'")}, '''
pdf = pdfw.Pdf()
pdf.page(595, 842).text(60, 110, 'some text')
os.makedirs(path('in'))
os.makedirs(path('cwd'))
with open(path('in/a.pdf'), 'wb') as f: f.write(pdf.tobytes())
with open(path('cwd/layout.json'), 'w') as f: f.write('mine')
os.chdir(path('cwd'))
with quiet():
    cv = Converter(path('in/a.pdf'))
    cv.debug_page(0, path('in/a.docx'))
    cv.close()
done(open('layout.json').read() == 'mine' and os.path.exists(path('in/layout.json')), (os.listdir('.'), os.listdir(path('in'))))
''', 'debug_page() without a name for the layout file, called in another folder than that of the PDF', 'layout.json of the current folder is overwritten')

bug('c17-ids', 'C17', {'common/docx.py': ("        anchor.docPr.id = shape_id\n", '')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
for k in range(20): p.text(60, 100 + 30 * k, 'some text of the page, line %d, going on to the right side' % k)
for k in range(2): p.image(pdf.add_image(4, 4, bytes(range(48 * k, 48 * k + 48))), 100, 110 + 200 * k, 300, 210 + 200 * k)
with open(path('x.pdf'), 'wb') as f: f.write(pdf.tobytes())
convert(pdf.tobytes(), 'x')
import re
import zipfile
x = zipfile.ZipFile(path('x.docx')).read('word/document.xml').decode()
i = re.findall('<wp:docPr id="([0-9]+)"', x)
done(len(i) == 2 == len(set(i)) and x.count('<wp:anchor') == 2, i)
''', 'two floating pictures', 'drawings with the same id')

bug('c03-dark', 'C03', {'common/share.py': ("s = hex(srgb)[2:].zfill(6)", "s = '{:0<6x}'.format(srgb)")}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
for k, c in enumerate(((1, 0, 0), (0, 0, 1), (0, 0, 0), (.02, .5, .5))): p.text(60, 110 + 40 * k, 'text in colour', color=c)
d = convert(pdf.tobytes())
c = [r.color for q in docxr.walk(d.sections[0].items) for r in q.runs if r.text.strip()]
done([str(x).upper() for x in c] in (['FF0000', '0000FF', '000000', '057F7F'], ['FF0000', '0000FF', '000000', '058080'], ['FF0000', '0000FF', '000000', '057F7F']), c)
''', 'text in a colour with little red', 'the text gets another colour')

bug('c04-vertical', 'C04', {'text/TextSpan.py': ("""                bbox = (self.bbox.x0, intsec.y1, self.bbox.x1, self.bbox.y1)
            split_span = self.copy().update_bbox(bbox)
            split_span.chars = self.chars[0:pos]""", """                bbox = (self.bbox.x0, self.bbox.y0, self.bbox.x1, intsec.y0)
            split_span = self.copy().update_bbox(bbox)
            split_span.chars = self.chars[0:pos]""")}, '''
import fitz
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
s = 'some vertical text with marks'
f = lambda i: 400 - fitz.get_text_length(s[:i], fontsize=11)
for a, b, c in ((5, 13, (1, 1, 0)), (24, 29, (0, 1, 1))): p.rect(190, f(b), 204, f(a), fill=c)
p.text(200, 400, s, vertical=True)
d = convert(pdf.tobytes())
m = [r.text.strip() for q in docxr.walk(d.sections[0].items) for r in q.runs if r.hl or r.shd]
done(sorted(m) == ['marks', 'vertical'], m)
''', 'two highlights on one line of vertical text, of which the upper one is applied first', 'the second highlight gets lost')

bug('c06-merged', 'C06', {'table/Cell.py': ("""            for n in range(j, j+n_col):
                docx.set_cell_border(table.cell(m, n), **kwargs)        
""", """            for n in range(j, j+n_col):
                docx.set_cell_border(table.cell(i, n), **kwargs)        
""")}, GRID + '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
grid(p, [60, 260, 460], [100, 130, 160], skip_h=[(1, 0)])
for x, y, s in ((65, 120, 'high'), (265, 120, 'd'), (265, 150, 'e')): p.text(x, y, s)
import lxml.etree as E
with open(path('x.pdf'), 'wb') as f: f.write(pdf.tobytes())
convert(pdf.tobytes(), 'x')
import zipfile
r = E.fromstring(zipfile.ZipFile(path('x.docx')).read('word/document.xml'))
W = '{http://schemas.openxmlformats.org/wordprocessingml/2006/main}'
tc = [t for t in r.iter(W + 'tc')]
n = [len(t.findall(W + 'tcPr/' + W + 'tcBorders/*')) for t in tc]
done(len(n) == 4 and n[0] == n[2] == 4, n)
''', 'cells merged over several rows', 'the lower part of a merged cell has no borders (e.g. at the bottom)')

bug('c18-size', 'C18', {'page/RawPage.py': ("""        *_, w, h = self.fitz_page.rect # always reflecting page rotation
""", """        w, h = raw_layout['width'], raw_layout['height']
        if self.fitz_page.rotation==90: w, h = h, w
""")}, '''
def page(rot):
    pdf = pdfw.Pdf()
    pdf.page(595, 842, rotate=rot).text(60, 110, 'a line of text')
    s = convert(pdf.tobytes()).sections[0]
    return s.w, s.h
w = [page(r) for r in (0, 90, 180, 270)]
done(set(w) == {(595, 842)}, w)
''', 'a page rotated by 270 degrees', 'width and height of the page are exchanged')

bug('c07-reference', 'C07', {'table/TablesConstructor.py': ('is_reference = col_num<=2', 'is_reference = col_num<=3')}, '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
import fitz
for i in range(5):
    for j in range(3):
        # rows of different height, text of the columns not at the same height
        if (i + j) % 4 != 3: p.text(60 + 210 * j, 110 + 30 * i, 'cell%d%d of it' % (i, j))
d = convert(pdf.tobytes())
t = d.sections[0].tables
s = t[0].structure() if t else {}
done(len(t) == 1 and len(set(k[0] for k in s)) == 5, s)
''', 'a grid of three columns without borders', 'the rows of the table are merged')

bug('c24-lines', 'C24', {'text/TextBlock.py': ("return '\\n'.join(lines_text)", "return ''.join(lines_text)")}, GRID + '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
grid(p, [60, 200, 340], [100, 160, 220])
for x, y, s in ((65, 120, 'upper line'), (65, 134, 'lower line'), (205, 120, 'c'), (65, 180, 'd'), (205, 180, 'e')): p.text(x, y, s)
t = tables(pdf.tobytes())
done(t[0][0][0].split() == ['upper', 'line', 'lower', 'line'], t)
''', 'a table cell with several lines', 'the last word of a line and the first one of the next line are joined in extracted tables')

bug('c05-thin', 'C05', {'table/TableStructure.py': [('if abs(y-y_)>min_border_clearance: continue', 'if abs(y-y_)>max_border_width: continue')]}, GRID + '''
pdf = pdfw.Pdf()
p = pdf.page(600, 842)
grid(p, [60, 340, 540], [100, 130, 134.5, 160])
for x, y, s in ((65, 120, "a"), (345, 120, "b"), (65, 150, "c"), (345, 150, "d")): p.text(x, y, s)
t = convert(pdf.tobytes()).sections[0].tables
s = t[0].structure() if len(t) == 1 else None
done(s is not None and len(s) == 6, s)
''', 'a table with an empty row lower than 6 points', 'the row gets lost')

bug('c22-cells', 'C22', {'table/TableBlock.py': ("""                if not cell: continue  # ignore merged cells   
                cell.plot(page)
""", """                if not cell or not cell.layout.blocks: continue  # ignore merged cells   
                cell.plot(page)
""")}, GRID + '''
pdf = pdfw.Pdf()
p = pdf.page(595, 842)
grid(p, [60, 200, 340], [100, 130, 160])
for x, y, s in ((65, 120, 'a'), (205, 120, 'b'), (205, 150, 'e')): p.text(x, y, s)
with open(path('a.pdf'), 'wb') as f: f.write(pdf.tobytes())
with quiet():
    cv = Converter(path('a.pdf'))
    cv.debug_page(0, path('a.docx'), path('d.pdf'), path('l.json'))
    cv.close()
doc = fitz.open(path('d.pdf'))
r = [d['rect'] for d in doc[doc.page_count - 1].get_drawings()]
n = sum(1 for x in r if abs(x.x0 - 60) < 3 and abs(x.y0 - 130) < 3 and abs(x.x1 - 200) < 3 and abs(x.y1 - 160) < 3)
done(n > 0, r)
''', 'a table with an empty cell', 'the cell is not shown in debug mode')
