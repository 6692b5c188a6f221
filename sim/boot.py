"""Process set-up shared by all checks: environment, virtual stdout, import of the code under test."""
import os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


class Sink:
    """Replaces sys.stdout for the code under test: nothing it prints may influence a run."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.count = 0

    def write(self, s):
        self.count += len(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True


SINK = Sink()
_real_stdout_fd = None


def say(*words):
    """prints to the real stdout"""
    data = (' '.join(str(w) for w in words) + '\n').encode()
    while data:
        n = os.write(1, data)
        data = data[n:]


_lib = None


def lib():
    """imports the code under test (once)"""
    global _lib
    if _lib is not None:
        return _lib
    sys.stdout = SINK
    if 'MPLCONFIGDIR' not in os.environ:
        import tempfile, atexit, shutil
        d = tempfile.mkdtemp(prefix='verifmpl')
        os.environ['MPLCONFIGDIR'] = d
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np, scipy, scipy.linalg, scipy.sparse.linalg, scipy.integrate
    import lib.mpslib.mpsfunctions as mf
    import lib.mpslib.mps as mps
    import lib.mpslib.engines as engines
    import lib.mpslib.Hamiltonians as H
    import lib.Lanczos.LanczosEngine as lanczos
    assert os.path.realpath(mps.__file__).startswith(os.path.realpath(REPO) + '/')

    class L:
        pass
    L = L()
    L.np, L.mf, L.MPS, L.mps, L.en, L.H, L.lan = np, mf, mps.MPS, mps, engines, H, lanczos
    warnings.simplefilter('ignore')
    # silence the warnings machinery altogether: its registries are process history
    warnings.warn = lambda *a, **k: None
    _lib = L
    return L
