# -*- coding: utf-8 -*-
'''What a docx must fulfil so that word processors read it (ISO 29500-1/-4, the part of WordprocessingML and DrawingML which is used here):
parts, content types and relationships, children and their order, attributes and their types, identifiers, grids of tables.'''
import posixpath
import re
import zipfile
from lxml import etree

W = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
A = 'http://schemas.openxmlformats.org/drawingml/2006/main'
PIC = 'http://schemas.openxmlformats.org/drawingml/2006/picture'
WP = 'http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing'
RELS = 'http://schemas.openxmlformats.org/package/2006/relationships'
CT = 'http://schemas.openxmlformats.org/package/2006/content-types'
NS = {W: 'w', R: 'r', A: 'a', PIC: 'pic', WP: 'wp', 'http://www.w3.org/XML/1998/namespace': 'xml'}


def name(tag):
    if not isinstance(tag, str): return '#' + str(tag)
    if not tag.startswith('{'): return tag
    ns, n = tag[1:].split('}')
    return '%s:%s' % (NS.get(ns, ns), n)


def rx(p): return re.compile('(?:%s)\\Z' % p).match


def integer(a, b):
    def f(s): return re.match(r'-?\d+\Z', s) and a <= int(s) <= b
    return f


BIG = 10 ** 12
ONOFF = rx('0|1|true|false|on|off')
HEX = rx('auto|[0-9A-Fa-f]{6}')
TWIPS = integer(0, 10 ** 7)       # unsigned measure of a twentieth of a point
STWIPS = integer(-10 ** 7, 10 ** 7)
EMU = integer(0, 27273042316900)
SEMU = integer(-27273042316900, 27273042316900)
ANY = lambda s: True
TEXT = ANY
# the order is free among the children of w:r, and of w:rPr
FREE = True
BORDER = ({'sz': integer(0, 96), 'val': rx('single|nil|none|double|dotted|dashed|thick'), 'color': HEX, 'space': integer(0, 31), 'shadow': ONOFF}, {'val'})
WIDTH = ({'w': STWIPS, 'type': rx('dxa|auto|nil|pct')}, set())
SHD = ({'val': rx('clear|nil|solid|pct\\d+'), 'color': HEX, 'fill': HEX}, {'val'})
SIDES = 'w:top w:start w:left w:bottom w:end w:right w:insideH w:insideV'.split()
BLOCK = ['w:p', 'w:tbl']
# element -> (children, in order unless FREE, attributes and their types, required attributes); children ending with ! occur exactly once, with * any times
SCHEMA = {
 'w:document': (['w:body!'], {}, ()),
 'w:body': (None, {}, ()),
 'w:p': (None, {}, ()),
 'w:pPr': ('w:pStyle w:keepNext w:keepLines w:pageBreakBefore w:framePr w:widowControl w:numPr w:suppressLineNumbers w:pBdr w:shd w:tabs w:suppressAutoHyphens '
           'w:kinsoku w:wordWrap w:overflowPunct w:topLinePunct w:autoSpaceDE w:autoSpaceDN w:bidi w:adjustRightInd w:snapToGrid w:spacing w:ind w:contextualSpacing '
           'w:mirrorIndents w:suppressOverlap w:jc w:textDirection w:textAlignment w:textboxTightWrap w:outlineLvl w:divId w:cnfStyle w:rPr w:sectPr w:pPrChange'.split(), {}, ()),
 'w:widowControl': ([], {'val': ONOFF}, ()), 'w:autoSpaceDE': ([], {'val': ONOFF}, ()), 'w:autoSpaceDN': ([], {'val': ONOFF}, ()),
 'w:keepNext': ([], {'val': ONOFF}, ()), 'w:keepLines': ([], {'val': ONOFF}, ()), 'w:pageBreakBefore': ([], {'val': ONOFF}, ()), 'w:pStyle': ([], {'val': ANY}, ('val',)),
 'w:spacing': ([], {'before': TWIPS, 'after': TWIPS, 'line': STWIPS, 'lineRule': rx('auto|exact|atLeast')}, ()),
 'w:ind': ([], {'left': STWIPS, 'right': STWIPS, 'start': STWIPS, 'end': STWIPS, 'firstLine': TWIPS, 'hanging': TWIPS}, ()),
 'w:jc': ([], {'val': rx('left|right|center|both|start|end|distribute')}, ('val',)),
 'w:tabs': (['w:tab*'], {}, ()),
 'w:tab': ([], {'val': rx('left|right|center|decimal|bar|clear|num|start|end'), 'pos': STWIPS, 'leader': rx('none|dot|hyphen|underscore|heavy|middleDot')}, ()),
 'w:r': (FREE, {}, ()),
 'w:rPr': (FREE, {}, ()),
 'w:hyperlink': (['w:r*'], {'r:id': TEXT, 'history': ONOFF, 'anchor': TEXT, 'tooltip': TEXT}, ()),
 'w:t': ([], {'xml:space': rx('preserve|default')}, ()),
 'w:br': ([], {'type': rx('page|column|textWrapping'), 'clear': rx('none|left|right|all')}, ()),
 'w:cr': ([], {}, ()), 'w:noBreakHyphen': ([], {}, ()), 'w:softHyphen': ([], {}, ()),
 'w:b': ([], {'val': ONOFF}, ()), 'w:bCs': ([], {'val': ONOFF}, ()), 'w:i': ([], {'val': ONOFF}, ()), 'w:iCs': ([], {'val': ONOFF}, ()),
 'w:strike': ([], {'val': ONOFF}, ()), 'w:noProof': ([], {'val': ONOFF}, ()),
 'w:color': ([], {'val': HEX}, ('val',)), 'w:sz': ([], {'val': integer(1, 3276)}, ('val',)), 'w:szCs': ([], {'val': integer(1, 3276)}, ('val',)),
 'w:w': ([], {'val': rx(r'\d{1,2}|[1-5]\d\d|600|\d+(\.\d+)?%')}, ('val',)),
 'w:rFonts': ([], {'ascii': TEXT, 'hAnsi': TEXT, 'eastAsia': TEXT, 'cs': TEXT}, ()),
 'w:rStyle': ([], {'val': TEXT}, ('val',)),
 'w:highlight': ([], {'val': rx('black|blue|cyan|darkBlue|darkCyan|darkGray|darkGreen|darkMagenta|darkRed|darkYellow|green|lightGray|magenta|none|red|white|yellow')}, ('val',)),
 'w:u': ([], {'val': rx('single|words|double|none|thick|dotted|dash|wave'), 'color': HEX}, ()),
 'w:shd': ([],) + SHD, 'w:vertAlign': ([], {'val': rx('superscript|subscript|baseline')}, ('val',)),
 'w:drawing': (FREE, {}, ()),
 'w:sectPr': ('w:footnotePr w:endnotePr w:type w:pgSz w:pgMar w:paperSrc w:pgBorders w:lnNumType w:pgNumType w:cols w:formProt w:vAlign w:noEndnote w:titlePg '
              'w:textDirection w:bidi w:rtlGutter w:docGrid w:printerSettings'.split(), {'rsidR': ANY, 'rsidRPr': ANY, 'rsidSect': ANY}, ()),
 'w:type': ([], {'val': rx('nextPage|nextColumn|continuous|evenPage|oddPage')}, ()),
 'w:pgSz': ([], {'w': TWIPS, 'h': TWIPS, 'orient': rx('portrait|landscape')}, ()),
 'w:pgMar': ([], {'top': STWIPS, 'bottom': STWIPS, 'left': TWIPS, 'right': TWIPS, 'header': TWIPS, 'footer': TWIPS, 'gutter': TWIPS}, ('top', 'bottom', 'left', 'right')),
 'w:cols': (['w:col*'], {'space': TWIPS, 'num': integer(1, 45), 'equalWidth': ONOFF, 'sep': ONOFF}, ()),
 'w:col': ([], {'w': TWIPS, 'space': TWIPS}, ()),
 'w:docGrid': ([], {'linePitch': STWIPS, 'type': ANY, 'charSpace': STWIPS}, ()),
 'w:tbl': (['w:tblPr!', 'w:tblGrid!', 'w:tr*'], {}, ()),
 'w:tblPr': ('w:tblStyle w:tblpPr w:tblOverlap w:bidiVisual w:tblStyleRowBandSize w:tblStyleColBandSize w:tblW w:jc w:tblCellSpacing w:tblInd w:tblBorders w:shd w:tblLayout '
             'w:tblCellMar w:tblLook'.split(), {}, ()),
 'w:tblStyle': ([], {'val': TEXT}, ('val',)),
 'w:tblW': ([],) + WIDTH, 'w:tblInd': ([],) + WIDTH, 'w:tcW': ([],) + WIDTH,
 'w:tblLayout': ([], {'type': rx('fixed|autofit')}, ()),
 'w:tblLook': ([], {k: ANY for k in 'val firstRow lastRow firstColumn lastColumn noHBand noVBand'.split()}, ()),
 'w:tblGrid': (['w:gridCol*'], {}, ()), 'w:gridCol': ([], {'w': TWIPS}, ()),
 'w:tr': (['w:trPr', 'w:tc*'], {}, ()), 'w:trPr': (FREE, {}, ()), 'w:trHeight': ([], {'val': TWIPS, 'hRule': rx('exact|atLeast|auto')}, ()),
 'w:tc': (None, {}, ()),
 'w:tcPr': ('w:cnfStyle w:tcW w:gridSpan w:hMerge w:vMerge w:tcBorders w:shd w:noWrap w:tcMar w:textDirection w:tcFitText w:vAlign w:hideMark'.split(), {}, ()),
 'w:gridSpan': ([], {'val': integer(1, 10 ** 4)}, ('val',)), 'w:vMerge': ([], {'val': rx('restart|continue')}, ()),
 'w:tcBorders': (SIDES, {}, ()), 'w:tcMar': (SIDES[:6], {}, ()),
 'w:textDirection': ([], {'val': rx('btLr|tbRl|lrTb|tb|rl|lr|tbV|rlV|lrV|lrTbV|tbLrV|tbRlV')}, ('val',)),
 'w:vAlign': ([], {'val': rx('top|center|both|bottom')}, ('val',)),
 'wp:inline': ('wp:extent! wp:effectExtent wp:docPr! wp:cNvGraphicFramePr a:graphic!'.split(), {k: TWIPS for k in 'distT distB distL distR'.split()}, ()),
 'wp:anchor': ('wp:simplePos! wp:positionH! wp:positionV! wp:extent! wp:effectExtent wp:wrapNone wp:wrapSquare wp:wrapTopAndBottom wp:docPr! wp:cNvGraphicFramePr a:graphic!'.split(),
               dict({k: TWIPS for k in 'distT distB distL distR relativeHeight'.split()}, **{k: ONOFF for k in 'simplePos behindDoc locked layoutInCell allowOverlap hidden'.split()}),
               ('relativeHeight', 'behindDoc', 'locked', 'layoutInCell', 'allowOverlap')),
 'wp:simplePos': ([], {'x': SEMU, 'y': SEMU}, ('x', 'y')),
 'wp:positionH': (FREE, {'relativeFrom': rx('page|margin|column|character')}, ('relativeFrom',)),
 'wp:positionV': (FREE, {'relativeFrom': rx('page|margin|paragraph|line')}, ('relativeFrom',)),
 'wp:posOffset': ([], {}, ()), 'wp:align': ([], {}, ()),
 'wp:wrapNone': ([], {}, ()), 'wp:wrapTopAndBottom': ([], {}, ()), 'wp:wrapSquare': ([], {'wrapText': ANY}, ()),
 'wp:extent': ([], {'cx': EMU, 'cy': EMU}, ('cx', 'cy')), 'wp:effectExtent': ([], {k: SEMU for k in 'ltrb'}, tuple('ltrb')),
 'wp:docPr': ([], {'id': integer(0, 2 ** 31 - 1), 'name': TEXT, 'descr': TEXT, 'title': TEXT}, ('id', 'name')),
 'wp:cNvGraphicFramePr': (['a:graphicFrameLocks'], {}, ()), 'a:graphicFrameLocks': ([], {'noChangeAspect': ONOFF}, ()),
 'a:graphic': (['a:graphicData!'], {}, ()), 'a:graphicData': (['pic:pic!'], {'uri': rx(re.escape(PIC))}, ('uri',)),
 'pic:pic': ('pic:nvPicPr! pic:blipFill! pic:spPr!'.split(), {}, ()), 'pic:nvPicPr': ('pic:cNvPr! pic:cNvPicPr!'.split(), {}, ()),
 'pic:cNvPr': ([], {'id': integer(0, 2 ** 31 - 1), 'name': TEXT, 'descr': TEXT}, ('id', 'name')), 'pic:cNvPicPr': (FREE, {'preferRelativeResize': ONOFF}, ()),
 'pic:blipFill': ('a:blip a:srcRect a:stretch'.split(), {'dpi': TWIPS, 'rotWithShape': ONOFF}, ()),
 'a:blip': (FREE, {'r:embed': TEXT, 'r:link': TEXT, 'cstate': ANY}, ('r:embed',)), 'a:srcRect': ([], {k: STWIPS for k in 'ltrb'}, ()),
 'a:stretch': (['a:fillRect'], {}, ()), 'a:fillRect': ([], {k: STWIPS for k in 'ltrb'}, ()),
 'pic:spPr': ('a:xfrm a:prstGeom a:noFill a:ln'.split(), {'bwMode': ANY}, ()), 'a:xfrm': ('a:off a:ext'.split(), {'rot': STWIPS, 'flipH': ONOFF, 'flipV': ONOFF}, ()),
 'a:off': ([], {'x': SEMU, 'y': SEMU}, ('x', 'y')), 'a:ext': ([], {'cx': EMU, 'cy': EMU}, ('cx', 'cy')),
 'a:prstGeom': (['a:avLst'], {'prst': TEXT}, ('prst',)), 'a:avLst': ([], {}, ()), 'a:noFill': ([], {}, ()),
}
RUN = set('w:rPr w:t w:br w:cr w:tab w:noBreakHyphen w:softHyphen w:drawing'.split())
RPR = set('w:rStyle w:rFonts w:b w:bCs w:i w:iCs w:strike w:noProof w:color w:w w:sz w:szCs w:highlight w:u w:shd w:vertAlign w:spacing'.split())
KIDS = {'w:r': RUN, 'w:rPr': RPR, 'w:drawing': {'wp:inline', 'wp:anchor'}, 'w:trPr': {'w:trHeight', 'w:cantSplit', 'w:tblHeader', 'w:gridAfter', 'w:gridBefore'},
        'wp:positionH': {'wp:posOffset', 'wp:align'}, 'wp:positionV': {'wp:posOffset', 'wp:align'}, 'pic:cNvPicPr': {'a:picLocks'}, 'a:blip': set()}
ONCE = {'w:rPr', 'w:trPr', 'w:drawing'}


def where(e):
    p = []
    while e is not None and len(p) < 4:
        p.append(name(e.tag))
        e = e.getparent()
    return '/'.join(reversed(p))


def attributes(e, n, spec, bad):
    at, need = spec[-2], spec[-1]
    for k, v in e.attrib.items():
        k = name(k)
        k = k[2:] if k.startswith('w:') else k
        if ':' in k and k.split(':')[0] not in ('r', 'xml'): continue
        if k not in at: bad('attribute', '%s has an attribute %s="%s"' % (where(e), k, v))
        elif not at[k](v): bad('value', '%s has %s="%s"' % (where(e), k, v[:80]))
    have = {name(k).split(':')[-1] if not name(k).startswith('r:') else name(k) for k in e.attrib}
    for k in need:
        if k not in have: bad('required', '%s has no %s' % (where(e), k))


def blocks(e, kids, bad):
    n = name(e.tag)
    if n == 'w:body':
        if not kids or kids[-1] != 'w:sectPr': bad('order', 'w:body does not end with w:sectPr')
        kids = kids[:-1]
    elif n == 'w:tc':
        if kids and kids[0] == 'w:tcPr': kids = kids[1:]
        if not kids or kids[-1] != 'w:p': bad('cell', 'a cell does not end with a paragraph: %s' % kids[-3:])
    elif n == 'w:p':
        if kids and kids[0] == 'w:pPr': kids = kids[1:]
        for k in kids:
            if k not in ('w:r', 'w:hyperlink'): bad('child', '%s in %s' % (k, where(e)))
        return
    for k in kids:
        if k not in ('w:p', 'w:tbl'): bad('child', '%s in %s' % (k, where(e)))


def element(e, bad, count):
    n = name(e.tag)
    count('elements')
    spec = SCHEMA.get(n)
    if spec is None and name(e.getparent().tag) in ('w:tcBorders', 'w:tcMar') and n in SIDES:
        spec = ([],) + (BORDER if name(e.getparent().tag) == 'w:tcBorders' else WIDTH)
    if spec is None: bad('element', where(e)); return
    kids = [name(c.tag) for c in e]
    attributes(e, n, spec, bad)
    if spec[0] is None: blocks(e, kids, bad)
    elif spec[0] is FREE:
        for k in kids:
            if k not in KIDS[n]: bad('child', '%s in %s' % (k, where(e)))
        if n in ONCE and len(set(kids)) != len(kids): bad('twice', '%s: %s' % (where(e), kids))
        if n == 'w:r' and 'w:rPr' in kids[1:]: bad('order', 'w:rPr is not first in w:r: %s' % kids)
    else:
        order = {k.rstrip('!*'): i for i, k in enumerate(spec[0])}
        last = -1
        for k in kids:
            if k not in order: bad('child', '%s in %s' % (k, where(e))); continue
            if order[k] < last: bad('order', '%s comes too late in %s: %s' % (k, where(e), kids)); break
            if order[k] == last and not spec[0][last].endswith('*'): bad('twice', '%s in %s' % (k, where(e)))
            last = order[k]
        for k in spec[0]:
            if k.endswith('!') and k[:-1] not in kids: bad('missing', '%s in %s' % (k[:-1], where(e)))
    if n == 'wp:posOffset' and not SEMU(e.text or ''): bad('value', '%s: %r' % (where(e), e.text))
    if n in ('wp:extent', 'a:ext') and (e.get('cx'), e.get('cy')).count('0'): bad('value', '%s is empty' % where(e))


def table(t, bad):
    q = lambda x: '{%s}%s' % (W, x)
    cols = len(t.findall('%s/%s' % (q('tblGrid'), q('gridCol'))))
    rows = t.findall(q('tr'))
    if not rows: bad('grid', 'a table without rows')
    above = set()
    for tr in rows:
        j, cur = 0, set()
        if tr.find(q('tc')) is None: bad('grid', 'a row without cells')
        for tc in tr.findall(q('tc')):
            g, m = tc.find('%s/%s' % (q('tcPr'), q('gridSpan'))), tc.find('%s/%s' % (q('tcPr'), q('vMerge')))
            k = int(g.get(q('val'))) if g is not None else 1
            if m is not None:
                cur.add((j, k))
                if m.get(q('val'), 'continue') == 'continue' and (j, k) not in above: bad('merge', 'a vertically merged cell continues nothing')
            j += k
        above = cur
        if j != cols: bad('grid', 'a row covers %d columns of %d' % (j, cols))


def validate(data, bad, count=lambda *a: None):
    '''docx (a path or file) -> calls bad(key, message)'''
    try: z = zipfile.ZipFile(data)
    except Exception as e: bad('zip', repr(e)); return
    names = z.namelist()
    if z.testzip() is not None: bad('zip', 'corrupt part %s' % z.testzip())
    if len(set(names)) != len(names): bad('zip', 'a part is there twice')
    trees = {}
    for n in names:
        count('parts')
        if n.endswith('.xml') or n.endswith('.rels'):
            try: trees[n] = etree.fromstring(z.read(n))
            except Exception as e: bad('xml', '%s: %s' % (n, e)); return
    for n in ('[Content_Types].xml', '_rels/.rels', 'word/document.xml'):
        if n not in trees: bad('part', 'no ' + n); return
    # content types
    ct = trees['[Content_Types].xml']
    ext = {e.get('Extension').lower(): e.get('ContentType') for e in ct.findall('{%s}Default' % CT)}
    over = {e.get('PartName'): e.get('ContentType') for e in ct.findall('{%s}Override' % CT)}
    for n in names:
        if n != '[Content_Types].xml' and '/' + n not in over and n.rsplit('.', 1)[-1].lower() not in ext: bad('type', 'no content type of ' + n)
    for n in over:
        if n[1:] not in names: bad('type', 'content type of %s, which does not exist' % n)
    # relationships
    rels = {}
    for n, t in trees.items():
        if not n.endswith('.rels'): continue
        base = posixpath.dirname(posixpath.dirname(n))
        src = posixpath.join(base, posixpath.basename(n)[:-5]) if posixpath.basename(n) != '.rels' else ''
        ids = {}
        for e in t:
            i = e.get('Id')
            if not i or not e.get('Type') or e.get('Target') is None: bad('rel', '%s: incomplete relationship %s' % (n, dict(e.attrib)))
            if i in ids: bad('rel', '%s: %s is there twice' % (n, i))
            ids[i] = e
            if e.get('TargetMode') != 'External':
                p = posixpath.normpath(posixpath.join(base, e.get('Target'))) if not e.get('Target').startswith('/') else e.get('Target')[1:]
                if p not in names: bad('rel', '%s: %s does not exist' % (n, p))
            elif not re.match(r'[\x21-\x7e\u00a0-\U0010ffff ]*\Z', e.get('Target')): bad('rel', '%s: target %r' % (n, e.get('Target')[:80]))
        rels[src] = ids
    doc = trees['word/document.xml']
    ids = rels.get('word/document.xml', {})
    used = set()
    for e in doc.iter('*'):
        element(e, bad, count)
        for k, v in e.attrib.items():
            if k.startswith('{%s}' % R):
                used.add(v)
                if v not in ids: bad('rid', '%s: %s=%s is unknown' % (where(e), name(k), v)); continue
                kind = ids[v].get('Type').rsplit('/', 1)[-1]
                want = {'a:blip': 'image', 'w:hyperlink': 'hyperlink'}.get(name(e.tag))
                if want and kind != want: bad('rid', '%s: %s is a relationship of type %s' % (where(e), v, kind))
                if want == 'hyperlink' and ids[v].get('TargetMode') != 'External': bad('rid', 'link %s is not external' % v)
    for i, e in ids.items():
        if e.get('Type').rsplit('/', 1)[-1] in ('image', 'hyperlink') and i not in used: bad('unused', '%s is not used: %s' % (i, e.get('Target')[:80]))
    pr = [e.get('id') for e in doc.iter('{%s}docPr' % WP)]
    if len(set(pr)) != len(pr): bad('id', 'drawings share an identifier: %s' % pr[:20])
    for t in doc.iter('{%s}tbl' % W): table(t, bad)
    styles = trees.get('word/styles.xml')
    if styles is not None:
        known = {e.get('{%s}styleId' % W) for e in styles}
        for t in ('pStyle', 'tblStyle'):
            for e in doc.iter('{%s}%s' % (W, t)):
                if e.get('{%s}val' % W) not in known: bad('style', 'unknown style ' + e.get('{%s}val' % W))
    # pictures are of the type of their name
    magic = {'png': b'\x89PNG', 'jpg': b'\xff\xd8', 'jpeg': b'\xff\xd8', 'gif': b'GIF8', 'bmp': b'BM', 'tiff': b'II'}
    for n in names:
        if n.startswith('word/media/'):
            b = magic.get(n.rsplit('.', 1)[-1].lower())
            if b is None or not z.read(n).startswith(b): bad('media', '%s is something else' % n)
