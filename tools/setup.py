# -*- coding: utf-8 -*-
'''setup_cmd: nothing to compile; makes sure that the code under test and the readers can be imported.'''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import env, docxr, pdfw, core  # noqa
import cv2, numpy, lxml  # noqa
env.load()
print('ok', env.fitz.__doc__)
sys.stdout.flush()
os._exit(0)
