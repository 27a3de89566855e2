# -*- coding: utf-8 -*-
'''Runs the real converter on generated or sample PDF files, in a scratch directory.'''
import contextlib
import io
import os
import shutil
import tempfile
from . import env, docxr

SCRATCH = os.environ.get('VT_SCRATCH') or tempfile.gettempdir()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vt-', dir=SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    s = io.StringIO()
    with contextlib.redirect_stdout(s), contextlib.redirect_stderr(s):
        yield s


class Conv:
    '''Result of one conversion.'''

    def __init__(self):
        self.docx = self.data = self.error = None
        self.log = ''

    @property
    def ignored(self):
        '''messages of pages which the converter gave up'''
        return [l for l in self.log.replace('\r', '\n').split('\n') if 'gnore page due to error' in l]


def convert(pdf, parse=True, **kw):
    '''bytes of a PDF (or a path) -> Conv; ``kw`` goes to Converter.convert().'''
    env.load()
    from pdf2docx import Converter
    r = Conv()
    with scratch() as d:
        if isinstance(pdf, bytes):
            path = os.path.join(d, 'in.pdf')
            with open(path, 'wb') as f: f.write(pdf)
        else:
            path = pdf
        out = os.path.join(d, 'out.docx')
        with quiet() as log:
            cv = None
            try:
                cv = Converter(path)
                cv.convert(out, **kw)
            except Exception as e:
                r.error = e
            finally:
                if cv is not None: cv.close()
        r.log = log.getvalue()
        if os.path.exists(out):
            with open(out, 'rb') as f: r.data = f.read()
            if parse: r.docx = docxr.Docx(r.data)
    return r
