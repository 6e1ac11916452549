"""build and run one harness: hb.py Pxx [seconds]"""
import sys, importlib
sys.path.insert(0, 'vc')
import run, build
P = importlib.import_module('props.' + sys.argv[1]).PROP
import os; os.makedirs('/tmp/hb', exist_ok=True)
r = run.run_harness(P, 'quick', 1, '/tmp/hb', float(sys.argv[2]) if len(sys.argv) > 2 else 5)
print({k: v for k, v in r.items() if k != 'log'})
print(r.get('log', '')[-3500:])
