"""Builds the explorer and the library variants once (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import runner, checks
lk = runner.lock()
os.makedirs(runner.EVID + '/replays', exist_ok=True)
runner.build_driver()
for v in sorted({r.get('variant', 'nbc') for c in checks.CHECKS.values() for r in c['runs']}):
    try:
        runner.build_lib(v)
    except runner.BuildError as e:
        print('note: variant', v, 'does not build:', str(e)[-500:])
