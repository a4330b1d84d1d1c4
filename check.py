#!/usr/bin/env python3
"""Usage: check.py <property id>   (VERIF_SEED, VERIF_TIER=quick|thorough)"""
import importlib, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, 'lib'), os.path.join(ROOT, 'checks')]
os.environ.setdefault('PYTHONHASHSEED', '0')
if __name__ == '__main__':
    importlib.import_module(sys.argv[1]).main()
