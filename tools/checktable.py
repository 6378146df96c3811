"""id -> (technique, level note), taken from the check modules themselves"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
CHECKS = {p: (check.load(p).TECHNIQUE, check.load(p).NOTE) for p in check.all_checks()}
