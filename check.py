#!/opt/pvenv/bin/python
"""check.py <property> [--tier quick|thorough]   run a check
   check.py replay <file>                         replay a violation
   check.py determinism [<property> ...]          run the same seeds twice under different conditions, compare event logs"""
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv):
    import importlib
    from sim import core, boot
    if argv[0] == 'replay':
        return core.replay(argv[1])
    if argv[0] == 'determinism':
        from sim import selftest
        return selftest.main(argv[1:])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = os.environ.get('VERIF_SEED', '1')
    if '--seed' in argv:
        seed = argv[argv.index('--seed') + 1]
    mod = importlib.import_module('sim.checks.' + prop.lower())
    return core.check(mod, tier, int(seed))


if __name__ == '__main__':
    code = 3
    try:
        code = main(sys.argv[1:])
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 3
    except BaseException:
        import traceback
        os.write(2, traceback.format_exc().encode())
    finally:
        os.environ.pop('x', None)
    # leave through the interpreter so that scratch directories registered with atexit are removed
    sys.stdout = sys.__stdout__
    sys.exit(code)
