"""
Pristine processes: a server that has imported the code under test and does nothing but fork; every program runs in a
fresh child with its own clock, directory and earlier work, in an interpreter with its own hash seed and environment.
"""
import os, sys, json, pickle, select, signal, struct, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))


def _child(req, w):
    import resource, random
    from . import boot, numseam
    resource.setrlimit(resource.RLIMIT_CPU, (60, 70))
    off, rate = req['clock']
    for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
        real = getattr(time, name)
        setattr(time, name, lambda real=real, t0=real(): t0 + off + (real() - t0) * rate)
    for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        if hasattr(time, name):
            real = getattr(time, name)
            setattr(time, name, lambda real=real: int(real() * rate + off * 10 ** 9))
    os.makedirs(req['cwd'], exist_ok=True)
    os.chdir(req['cwd'])
    os.environ.update(req['env'])
    random.seed(req['pyseed'])
    import importlib
    mod = importlib.import_module('sim.checks.' + req['module'])
    try:
        out = ('ok', mod.program(boot.lib(), req))
    except BaseException as e:
        import traceback
        out = ('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:])
    b = pickle.dumps(out)
    while b:
        b = b[os.write(w, b):]


def serve(fd_in, fd_out):
    """requests and answers: length, then JSON / pickle"""
    from . import boot, numseam, disk
    boot.lib()
    numseam.install()
    inp = os.fdopen(fd_in, 'rb')
    os.write(fd_out, struct.pack('<q', 0))
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        req = json.loads(inp.read(struct.unpack('<q', h)[0]))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _child(req, w)
            finally:
                os._exit(0)
        os.close(w)
        b = b''
        while True:
            d = os.read(r, 1 << 16)
            if not d:
                break
            b += d
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if not b:
            b = pickle.dumps(('died', 'status %d' % st))
        b = struct.pack('<q', len(b)) + b
        while b:
            b = b[os.write(fd_out, b):]


class Server:
    def __init__(self, hashseed, env):
        a, b = os.pipe()
        c, d = os.pipe()
        e = dict(os.environ)
        e.update(env)
        e['PYTHONHASHSEED'] = str(hashseed)
        e['OMP_NUM_THREADS'] = e['OPENBLAS_NUM_THREADS'] = '1'
        self.p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); from sim import fresh; fresh.serve(%d, %d)' % (os.path.dirname(HERE), a, d)], env=e, pass_fds=(a, d),
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, cwd=os.path.dirname(HERE))
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def ready(self):
        assert self._read(8) == struct.pack('<q', 0)

    def _read(self, n):
        b = b''
        while len(b) < n:
            d = os.read(self.r, n - len(b))
            if not d:
                raise RuntimeError('server process is gone')
            b += d
        return b

    def send(self, req):
        b = json.dumps(req).encode()
        b = struct.pack('<q', len(b)) + b
        while b:
            b = b[os.write(self.w, b):]

    def recv(self):
        n = struct.unpack('<q', self._read(8))[0]
        return pickle.loads(self._read(n))


_servers = {}


def pair():
    """the two servers of this process, started on first use"""
    me = os.getpid()
    if me not in _servers:
        s = [Server(0, {'LANG': 'C', 'HOME': '/'}), Server(1 + me % 4000000, {'LANG': 'C.UTF-8', 'HOME': '/nonexistent', 'COLUMNS': '37', 'TZ': 'Pacific/Kiritimati', 'USER': 'somebody'})]
        for x in s:
            x.ready()
        _servers.clear()
        _servers[me] = s
    return _servers[me]
