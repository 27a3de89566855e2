# -*- coding: utf-8 -*-
'''C15 files'''
import hashlib
import os
import random
import sys
from .. import conv
from .. import common as M
from .. import docxr
from .. import gen_doc as D
from ..core import Result

TITLE = 'Only the documented output files are written; the PDF is never touched'
RULE = ('all entry points (convert, parse(), PDF2DOCX, extract_tables, store, serialize, debug_page, multi-processing, refused calls) in folders full of bystander '
        'files with tempting names, PDF names with dots, blanks, non-ASCII letters and other extensions, relative and absolute; an audit hook logs every file opened for '
        'writing, removed, renamed or created by any process, and the folders are compared before and after; distinct by case')
NEED = {'calls': 100, 'writes': 80, 'bystanders': 500}
CASE_LIMIT = 180
PROCS_PER_CASE = 2
NAMES = ['in.pdf', 'a.pdf.backup.pdf', 'my file.pdf', 'x.y.z.pdf', 'Upper.PDF', 'noext', 'B\u00e4r \u4e2d.pdf', '.hidden.pdf', 'docx.pdf', 'a.docx.pdf', 'pages-0.json.pdf', 'pdf', 'v1.0', "it's 100% [ok].pdf"]
DIRS = ['', 'sub', 'a.pdf', 'x.pdf.d/deep', 'with blank', '\u00fcmlaut']
HOW = ['convert', 'convert', 'default', 'default', 'default', 'parse', 'parse_default', 'mp', 'mp_default', 'tables', 'store', 'serialize', 'debug', 'debug_named', 'refused',
       'refused_mp', 'twice', 'broken', 'cli_debug']


def cases(tier, rnd):
    k = 16 if tier == 'quick' else 120
    return [dict(c, how=h) for h in HOW for c in M.seeds(rnd, k)]


WRITE = {'os.remove', 'os.rename', 'os.rmdir', 'os.truncate', 'os.mkdir', 'os.link', 'os.symlink', 'shutil.rmtree', 'shutil.move', 'os.chmod', 'os.utime', 'os.chown', 'os.mkfifo'}
_log = {'fd': None}


def hook(event, args):
    fd = _log['fd']
    if fd is None: return
    try:
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int): return
            w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (mode is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not w: return
        elif event not in WRITE: return
        else: path = args[0]
        path = os.fsdecode(path)
        os.write(fd, ('%s\t%s\n' % (event, os.path.join(os.getcwd(), path))).encode('utf-8', 'surrogateescape'))
        if event in ('os.rename', 'shutil.move', 'os.link', 'os.symlink'):
            os.write(fd, ('%s\t%s\n' % (event, os.path.join(os.getcwd(), os.fsdecode(args[1])))).encode('utf-8', 'surrogateescape'))
    except Exception:
        pass


def tree(d):
    out = {}
    for a, ds, fs in os.walk(d):
        for x in ds: out[os.path.relpath(os.path.join(a, x), d)] = 'dir'
        for x in fs:
            p = os.path.join(a, x)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest() + ':%d' % os.stat(p).st_mtime_ns
    return out


def run(case):
    res, rnd, how = Result(), random.Random(case['seed']), case['how']
    from pdf2docx import Converter, parse
    from pdf2docx.main import PDF2DOCX
    import tempfile
    cwd = os.getcwd()
    with conv.scratch() as top, conv.quiet():
        d, tmp = os.path.join(top, 'work'), os.path.join(top, 'tmp')
        os.makedirs(d); os.makedirs(tmp)
        sub = rnd.choice(DIRS)
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        name = rnd.choice(NAMES)
        rel = os.path.join(sub, name)
        pdf, truth = D.build(rnd, rnd.choice((1, 1, 2, 3)))
        pdf.save(os.path.join(d, rel))
        # bystanders
        for f in ('pages-0.json', 'pages-1.json', 'layout.json', 'debug_other.pdf', 'in.docx', 'a.docx', 'other.docx', 'x.docx', 'out', 'tmp.json', 'image.png', '1.json'):
            for s in ('', sub):
                p = os.path.join(d, s, f)
                with open(p, 'wb') as g: g.write(('bystander ' + p).encode())
        stem = os.path.splitext(rel)[0]
        if rnd.random() < .4:
            with open(os.path.join(d, stem + '.docx'), 'wb') as g: g.write(b'old')
        env_tmp = os.environ.get('TMPDIR')
        os.environ['TMPDIR'] = tmp
        tempfile.tempdir = None
        os.chdir(d if rnd.random() < .6 else top)
        path = os.path.relpath(os.path.join(d, rel)) if rnd.random() < .5 else os.path.join(d, rel)
        if how == 'broken':
            with open(os.path.join(d, rel), 'wb') as g: g.write(rnd.choice((b'', b'no pdf at all', b'%PDF-1.5\n%%EOF')))
        before = tree(d)
        logf = os.path.join(top, 'audit.log')
        if not getattr(run, 'hooked', False):
            sys.addaudithook(hook)
            run.hooked = True
        _log['fd'] = os.open(logf, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        expect, err = set(), None         # files of d which may be written
        docx = os.path.join(d, rnd.choice(('', sub)), rnd.choice(('result.docx', 'r.e.s.docx', 'noext', 'r \u00e9.docx')))
        default = os.path.join(d, stem + '.docx')
        o = os.path.relpath(docx) if rnd.random() < .5 else docx
        refused = False
        try:
            if how == 'convert': expect = {docx}; cv = Converter(path); cv.convert(o); cv.close()
            elif how == 'default': expect = {default}; cv = Converter(path); cv.convert(); cv.close()
            elif how == 'twice':
                expect = {docx, default}
                cv = Converter(path); cv.convert(o); cv.convert(); cv.extract_tables(); cv.close()
            elif how == 'parse': expect = {docx}; parse(path, o)
            elif how == 'parse_default': expect = {default}; parse(path)
            elif how == 'mp': expect = {docx}; parse(path, o, multi_processing=True, cpu_count=2)
            elif how == 'mp_default': expect = {default}; cv = Converter(path); cv.convert(kwargs={'multi_processing': True}); cv.close()
            elif how == 'tables': PDF2DOCX.table(path)
            elif how == 'store': cv = Converter(path); cv.parse(); s = cv.store(); cv.restore(s); cv.close()
            elif how == 'serialize':
                f = os.path.join(d, 'my.layout.json')
                expect = {f}
                cv = Converter(path); cv.parse(); cv.serialize(f); cv.deserialize(f); cv.close()
            elif how == 'debug':
                expect = {default, os.path.join(d, sub, 'debug_' + name), os.path.join(d, sub, 'layout.json')}
                cv = Converter(path); cv.debug_page(0); cv.close()
            elif how == 'cli_debug':
                f = os.path.join(d, 'c.json')
                expect = {docx, os.path.join(d, sub, 'debug_' + name), f}
                PDF2DOCX.debug(path, 0, o, None, f)
            elif how == 'debug_named':
                a, b = os.path.join(d, 'dbg.pdf'), os.path.join(d, 'lay.json')
                expect = {docx, a, b}
                cv = Converter(path); cv.debug_page(0, o, a, b); cv.close()
            elif how in ('refused', 'refused_mp', 'broken'):
                refused = True
                kw = {'multi_processing': True, 'cpu_count': 2} if how == 'refused_mp' else {}
                if rnd.random() < .5:
                    o = default if os.path.exists(default) else os.path.join(d, 'in.docx')   # there is a docx already
                parse(path, o, pages=[99], **kw) if how != 'broken' else parse(path, o)
        except Exception as e: err = e
        finally:
            os.close(_log['fd'])
            _log['fd'] = None
            os.chdir(cwd)
            if env_tmp is None: os.environ.pop('TMPDIR', None)
            else: os.environ['TMPDIR'] = env_tmp
            tempfile.tempdir = None
        res.count('calls'); res.count('bystanders', len(before))
        res.sig = [how, case['seed']]
        res.note = '%s of %r in %r' % (how, name, sub)
        what = '%s, PDF %r' % (how, rel)
        if refused:
            if err is None: res.bad('accepted', '%s: no error' % what)
        elif err is not None: res.bad('error', '%s: %r' % (what, err)); return res
        after = tree(d)
        ex = {os.path.relpath(os.path.realpath(e), os.path.realpath(d)) for e in expect}
        for f in sorted(set(before) | set(after)):
            if f in ex: continue
            if before.get(f) != after.get(f):
                res.bad('file', '%s: %r was %s' % (what, f, 'removed' if f not in after else 'created' if f not in before else 'changed'))
        for f in ex:
            if f not in after: res.bad('missing', '%s: %r not written' % (what, f))
            elif f.endswith('.docx') or os.path.join(d, f) == docx:
                try: docxr.Docx(os.path.join(d, f)); res.count('docx')
                except Exception as e: res.bad('docx', '%s: %r unreadable: %r' % (what, f, e))
        left = [os.path.join(a, f) for a, _, fs in os.walk(tmp) for f in fs]
        if left: res.bad('temp', '%s: temporary files left: %s' % (what, left[:3]))
        lost = {p for p in os.listdir(tmp) if not p.startswith('pymp-')}
        if lost: res.bad('temp', '%s: temporary folders left: %s' % (what, list(lost)[:3]))
        rt, rd = os.path.realpath(tmp), os.path.realpath(d)
        for l in open(logf, encoding='utf-8', errors='surrogateescape'):
            ev, p = l.rstrip('\n').split('\t', 1)
            p = os.path.realpath(p)
            res.count('writes')
            if p.startswith(rt + os.sep) or p.startswith('/dev/') or '__pycache__' in p or (p.startswith(rd + os.sep) and os.path.relpath(p, rd) in ex) or p == rt: continue
            res.bad('write', '%s: %s of %s' % (what, ev, p))
    return res
