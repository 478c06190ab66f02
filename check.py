#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
os.environ['VERIF_TIER'] = tier
import chk, props
if __name__ == '__main__':
    if sys.argv[1] == 'gen': props.generate(); sys.exit(0)
    if sys.argv[1] == 'setup': props.setup(); sys.exit(0)
    p = props.CHECKS[sys.argv[1]]
    sys.exit(chk.run_check(sys.argv[1], p['title'], p['level'], p['run'], tier))
