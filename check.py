#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] : decide one property on /repo's current tree"""
import importlib.util, os, sys
if os.environ.get('PYTHONHASHSEED') is None:        # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'lib')); sys.path.insert(0, os.path.join(H, 'checks'))
sys.setrecursionlimit(20000)
if len(sys.argv) > 1 and sys.argv[1] == '--selftest':
    import shutil
    bad = [t for t in ('clang-18', 'opt-18', 'llvm-link-18', 'cmake', 'ninja') if not shutil.which(t)]
    print('missing tools: %s' % bad if bad else 'all tools present'); sys.exit(1 if bad else 0)
import chk
pid = sys.argv[1]
tier = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--tier' else (os.environ.get('VERIF_TIER') or 'quick')
if tier not in ('quick', 'thorough'): tier = 'quick'
mod = __import__(pid.lower())
chk.main(pid, mod.run, tier)
