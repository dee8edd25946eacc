#!/usr/bin/env python3
"""check.py PROPERTY: decides one property; see DESIGN.md"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import ctxmodel, fctxmodel, stackmodel, refmodel, traitsmodel, forwardmodel, winmodel, sanmodel, asmmodel

def main():
    prop = sys.argv[1]
    if not any(prop in m.CLS for m in (fctxmodel, stackmodel)) and prop not in ctxmodel.CHECKS and prop not in ('C20', 'C21', 'C29'):
        print('ERROR: no check for', prop); return 2
    chk = Check(prop, 'model_checking')
    try:
        if prop == 'C28': winmodel.run(chk)
        if prop == 'C23': sanmodel.run(chk)
        if prop in fctxmodel.CLS: fctxmodel.run(chk)
        if prop in ('C20', 'C28'): traitsmodel.run(chk)
        if prop == "C21": forwardmodel.run(chk)
        if prop == 'C29': asmmodel.run(chk)
        if prop == 'C16': refmodel.run(chk)
        if prop in stackmodel.CLS and not chk.violations: stackmodel.run(chk)
        if prop in ctxmodel.CHECKS and not chk.violations: ctxmodel.run(chk)
    except CheckError as e:
        print('ERROR:', e); return 2
    return chk.finish()
if __name__ == '__main__':
    sys.exit(main())
