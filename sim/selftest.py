"""Determinism of the simulation itself: the same seeds, split differently over worker processes and started from another
directory, must give the same event logs. Not part of any property's check (check.py determinism [C01 ...] [--count n])."""
import importlib, os, shutil, subprocess, sys
from . import boot, core


def main(argv):
    count = 60
    if '--count' in argv:
        i = argv.index('--count')
        count = int(argv[i + 1])
        del argv[i:i + 2]
    props = argv or ['C%02d' % i for i in range(1, 18)]
    if len(props) > 1:
        return max(subprocess.call([sys.executable, os.path.join(boot.VERIF, 'check.py'), 'determinism', p, '--count', str(count)]) for p in props)
    bad = 0
    for p in props:
        mod = importlib.import_module('sim.checks.' + p.lower())
        runs = []
        for workers, cwd in ((8, '/'), (3, boot.VERIF), (1, '/')):
            os.chdir(cwd)
            n = count if workers > 1 else count // 4
            agg, fails = core.search(mod, 'quick', 7, workers=workers, count=n, want_digests=True)
            if fails or agg['harness']:
                boot.say(p, 'fails:', [(f[0], f[2]['violation']['kind']) for f in fails], agg['harness'][:1])
                bad += 1
            runs.append(agg['digests'])
            shutil.rmtree(core.BASE, ignore_errors=True)
            core.BASE = None
        diff = [(i, r[i]) for r in runs[1:] for i in sorted(r) if i in runs[0] and r[i] != runs[0][i]]
        boot.say(p, len(runs[0]), 'cases,', 'event logs identical in %d repetitions' % (len(runs) - 1) if not diff else 'DIFFERENT: %s' % [i for i, _ in diff])
        bad += bool(diff)
    return 1 if bad else 0
