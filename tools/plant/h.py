# -*- coding: utf-8 -*-
'''Helper of the demonstration beside it: imports pdf2docx from the current directory.'''
import collections
import collections.abc
import contextlib
import io
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.getcwd())
if not hasattr(collections, 'Iterable'): collections.Iterable = collections.abc.Iterable
import fitz  # noqa: E402
fitz.restore_aliases()
import docxr  # noqa: E402
import pdfw  # noqa: E402,F401
from pdf2docx import Converter  # noqa: E402
import pdf2docx  # noqa: E402
assert os.path.realpath(pdf2docx.__file__).startswith(os.path.realpath(os.getcwd())), pdf2docx.__file__

DIR = tempfile.mkdtemp(prefix='demo-')


def done(ok, msg=''):
    print('ok' if ok else 'FAILED: %s' % (msg,))
    sys.stdout.flush()
    shutil.rmtree(DIR, ignore_errors=True)
    os._exit(0 if ok else 1)


@contextlib.contextmanager
def quiet():
    s = io.StringIO()
    with contextlib.redirect_stdout(s), contextlib.redirect_stderr(s): yield s


def path(name): return os.path.join(DIR, name)


def convert(pdf, name='a', **kw):
    '''PDF bytes -> docx as read by docxr'''
    with open(path(name + '.pdf'), 'wb') as f: f.write(pdf)
    with quiet():
        cv = Converter(path(name + '.pdf'))
        try: cv.convert(path(name + '.docx'), **kw)
        finally: cv.close()
    with open(path(name + '.docx'), 'rb') as f: return docxr.Docx(f.read())


def tables(pdf, **kw):
    with open(path('t.pdf'), 'wb') as f: f.write(pdf)
    with quiet():
        cv = Converter(path('t.pdf'))
        try: return cv.extract_tables(**kw)
        finally: cv.close()


def words(section): return ' '.join(p.text for p in docxr.walk(section.items)).split()
