#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from sa.runner import main

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
