#!/usr/bin/env python3
"""check.py ID : decides property ID on /repo's current tree.  Exit 0: held on everything decided (NOT-DECIDED lines name the rest; B2_STRICT=1 turns those into failures), 1 violated, 2 no answer."""
import sys, os, importlib, traceback, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import Facts, AnalysisBroken, VERIF
from ir import Prog
from report import Report, finish

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    m = importlib.import_module('rules_' + pid.lower())
    R = Report(pid)
    strict = os.environ.get('B2_STRICT')
    try: F = Facts(m.GROUPS)
    except AnalysisBroken as e: # the tree does not compile: no answer
        print(f'ANALYSIS-BROKEN property={pid}: {e}'); return 2
    try: m.check(F, Prog(F), R)
    except AnalysisBroken as e:
        if strict: raise
        R.notes.append(str(e))
    except Exception as e:
        if strict: raise
        traceback.print_exc(); R.notes.append(f'internal error: {type(e).__name__} {e}')
    return finish(R, F, tier, 'other', m.TECHNIQUE)

if __name__ == '__main__':
    sys.exit(main())
