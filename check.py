#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE] [-v]"""
import sys, os, json, time, tempfile, shutil, argparse, glob, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vcgen import driver as D
from vcgen import report

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default='quick')
ap.add_argument('--replay')
ap.add_argument('--only'); ap.add_argument('--suite')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
sys.exit(report.main(a))
