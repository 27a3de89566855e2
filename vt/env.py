# -*- coding: utf-8 -*-
'''Makes the code under test importable: /repo first, plus the old names that it takes from
Python < 3.10 and PyMuPDF < 1.20 (same aliases as the build of this sandbox uses).'''
import collections
import collections.abc
import os
import sys

REPO = os.environ.get('VT_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path: sys.path.insert(0, REPO)

import fitz  # noqa: E402

if not hasattr(collections, 'Iterable'):
    collections.Iterable = collections.abc.Iterable
fitz.restore_aliases()
try:
    fitz.TOOLS.mupdf_display_errors(False)
    fitz.TOOLS.mupdf_display_warnings(False)
except Exception:
    pass


def load():
    '''Import pdf2docx and make sure that it is the one of the repository.'''
    import pdf2docx
    assert os.path.realpath(pdf2docx.__file__).startswith(os.path.realpath(REPO) + os.sep), pdf2docx.__file__
    return pdf2docx
