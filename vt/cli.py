# -*- coding: utf-8 -*-
'''The command line "pdf2docx", with the code of the repository.'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import env  # noqa: E402

env.load()
sys.argv[0] = 'pdf2docx'
if __name__ == '__main__':
    from pdf2docx.main import main
    main()
