#!/opt/venv/bin/python
# -*- coding: utf-8 -*-
'''check.py <property id> [quick|thorough] [--replay FILE]'''
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
FIX = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
if os.environ.get('VT_CHILD') != '1':
    os.environ.update(FIX, VT_CHILD='1')
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, os.path.join(HERE, 'check.py')] + sys.argv[1:])
sys.path.insert(0, HERE)
from vt import core  # noqa: E402

core.main(sys.argv[1:])
