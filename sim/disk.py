"""Simulated disk: write-through journal over a scratch directory, disk errors, crash states."""
import builtins, errno, io, os, random, stat

_real = dict(open=builtins.open, os_open=os.open, os_write=os.write, os_close=os.close, os_fsync=os.fsync,
             os_fdatasync=os.fdatasync, os_fdopen=os.fdopen, os_replace=os.replace, os_rename=os.rename,
             os_remove=os.remove, os_unlink=os.unlink, os_ftruncate=os.ftruncate, os_truncate=os.truncate,
             os_link=os.link, os_read=os.read, os_lseek=os.lseek, os_fstat=os.fstat, os_fchmod=getattr(os, 'fchmod', None))

FAKE = 1 << 20


class Inode:
    __slots__ = ('num',)

    def __init__(self, num):
        self.num = num


class Handle:
    """an open file description on the simulated disk"""

    def __init__(self, disk, path, ino, flags):
        self.disk, self.path, self.ino, self.flags = disk, path, ino, flags
        self.pos = 0
        self.fd = None


class SimFile(io.BufferedIOBase):
    """a buffered binary file; the buffer is lost when the process dies"""

    def __init__(self, disk, handle, mode, bufsize=8192):
        self.disk, self.h, self.mode_ = disk, handle, mode
        self.buf = bytearray()
        self.bufsize = bufsize
        self.closed_ = False
        self.name = handle.path

    @property
    def mode(self):
        return self.mode_

    def __del__(self):
        pass

    @property
    def closed(self):
        return self.closed_

    def _check(self):
        if self.closed_:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        return 'r' in self.mode_ or '+' in self.mode_

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        self._check()
        return self.h.fd

    def isatty(self):
        return False

    def write(self, b):
        self._check()
        b = bytes(b)
        if self.bufsize == 0:
            return self.disk.k_write(self.h, b)
        self.buf += b
        if len(self.buf) >= self.bufsize:
            self.flush()
        return len(b)

    def flush(self):
        self._check()
        while self.buf:
            n = self.disk.k_write(self.h, bytes(self.buf))
            del self.buf[:n]

    def tell(self):
        return self.h.pos + len(self.buf)

    def seek(self, off, whence=0):
        self.flush()
        size = len(self.disk.data[self.h.ino])
        self.h.pos = off if whence == 0 else (self.h.pos + off if whence == 1 else size + off)
        return self.h.pos

    def truncate(self, size=None):
        self.flush()
        size = self.h.pos if size is None else size
        self.disk.k_truncate(self.h, size)
        return size

    def read(self, n=-1):
        self.flush()
        d = self.disk.data[self.h.ino]
        out = bytes(d[self.h.pos:] if n is None or n < 0 else d[self.h.pos:self.h.pos + n])
        self.h.pos += len(out)
        return out

    def close(self):
        if self.closed_:
            return
        try:
            self.flush()
        finally:
            self.closed_ = True
            self.disk.k_close(self.h)


class ReadFile(io.RawIOBase):
    """a file open for reading; read errors can be injected"""

    def __init__(self, disk, f, path):
        self.disk, self.f, self.name = disk, f, path

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        self.disk.fault('read', self.name)
        return self.f.readinto(b)

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def fileno(self):
        return self.f.fileno()

    def close(self):
        if not self.closed:
            self.f.close()
        super().close()


class SimDisk:
    """
    root: scratch directory, write-through image of the volatile state (what a running program sees).
    journal: list of operations from which the state after a crash at any point is computed.
    faults: list of dicts {kind, n, err, part, len}: the n-th operation (counted per kind, or over all
    kinds for kind 'any') and the len-1 following ones of that kind fail.
    """
    active = None

    def __init__(self, root, faults=()):
        self.root = os.path.realpath(root)
        self.names = {}         # path -> inode number
        self.data = {}          # inode number -> bytearray (volatile contents)
        self.journal = []
        self.marks = []
        self.nino = 0
        self.nfd = FAKE
        self.fds = {}
        self.counts = {}
        self.faults = list(faults)
        self.fired = []
        self.enabled = True
        self.gseq = 0
        self.last_mark_len = 0
        self.on_mark = None
        self.initial = {}

    # ------------------------------------------------------------------ set-up
    def seed_file(self, name, content):
        """a file that was there, durable, before the run"""
        p = os.path.join(self.root, name)
        with _real['open'](p, 'wb') as f:
            f.write(content)
        self.nino += 1
        self.names[p] = self.nino
        self.data[self.nino] = bytearray(content)
        self.initial[p] = bytes(content)

    def inside(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(self.root, p))
        # a path inside the scratch directory
        if p == self.root or p.startswith(self.root + '/'):
            return p
        rp = os.path.realpath(p)
        if rp.startswith(self.root + '/'):
            return rp
        return None

    # ------------------------------------------------------------------ faults
    def fault(self, kind, path, data=None):
        """raises OSError if the plan says so; for writes returns the number of bytes that still make it"""
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.counts['any'] = self.counts.get('any', 0) + 1
        if not self.enabled:
            return None
        for f in self.faults:
            if f['kind'] not in (kind, 'any'):
                continue
            if f['kind'] == 'any' and kind == 'read':
                continue
            k = self.counts[f['kind']] - 1
            if f['n'] <= k < f['n'] + f.get('len', 1):
                e = getattr(errno, f['err'])
                self.fired.append((kind, f['err'], len(self.journal)))
                if data is not None and f.get('part'):
                    keep = int(len(data) * f['part'])
                    return keep, OSError(e, os.strerror(e), path)
                raise OSError(e, os.strerror(e), path)
        return None

    # ------------------------------------------------------------------ kernel operations
    def newino(self):
        self.nino += 1
        self.data[self.nino] = bytearray()
        return self.nino

    def k_open(self, p, create, excl, trunc, append, must_exist=False):
        self.fault('open', p)
        exists = p in self.names or os.path.exists(p)
        if exists and p not in self.names:
            # appeared by an operation that is not journaled (e.g. shutil.copy through the real os): adopt it
            with _real['open'](p, 'rb') as f:
                c = f.read()
            ino = self.newino()
            self.data[ino] = bytearray(c)
            self.names[p] = ino
            self.journal.append(('adopt', p, ino, bytes(c)))
        if exists and excl:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
        if not exists:
            if must_exist or not create:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            if not os.path.isdir(os.path.dirname(p)):
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            ino = self.newino()
            self.names[p] = ino
            self.journal.append(('create', p, ino))
            _real['os_close'](_real['os_open'](p, os.O_CREAT | os.O_WRONLY, 0o644))
        else:
            ino = self.names[p]
            if os.path.isdir(p):
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
            if trunc:
                self.journal.append(('trunc', ino, 0))
                del self.data[ino][:]
                self._through(ino)
        h = Handle(self, p, ino, None)
        if append:
            h.pos = len(self.data[ino])
        h.append = append
        self.nfd += 1
        h.fd = self.nfd
        self.fds[h.fd] = h
        return h

    def _through(self, ino):
        for p, i in self.names.items():
            if i == ino:
                with _real['open'](p, 'wb') as f:
                    f.write(self.data[ino])

    def k_write(self, h, b):
        r = self.fault('write', h.path, b)
        err = None
        if r is not None:
            n, err = r
            b = b[:n]
        if b:
            d = self.data[h.ino]
            pos = len(d) if getattr(h, 'append', False) else h.pos
            if len(d) < pos:
                d += b'\0' * (pos - len(d))
            d[pos:pos + len(b)] = b
            h.pos = pos + len(b)
            self.journal.append(('write', h.ino, pos, bytes(b)))
            self._through(h.ino)
        if err is not None:
            raise err
        return len(b)

    def k_truncate(self, h, size):
        self.fault('write', h.path)
        d = self.data[h.ino]
        if size < len(d):
            del d[size:]
        else:
            d += b'\0' * (size - len(d))
        self.journal.append(('trunc', h.ino, size))
        self._through(h.ino)

    def k_fsync(self, h):
        self.fault('fsync', h.path)
        self.journal.append(('fsync', h.ino))

    def k_close(self, h):
        self.fds.pop(h.fd, None)
        self.journal.append(('close', h.ino))

    def k_rename(self, src, dst):
        self.fault('rename', src)
        if src not in self.names and not os.path.exists(src):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), src)
        _real['os_replace'](src, dst)
        if src in self.names:
            self.names[dst] = self.names.pop(src)
            self.journal.append(('rename', src, dst))

    def k_link(self, src, dst):
        self.fault('rename', src)
        _real['os_link'](src, dst)
        if src in self.names:
            self.names[dst] = self.names[src]
            self.journal.append(('link', src, dst))

    def k_remove(self, p):
        self.fault('remove', p)
        _real['os_remove'](p)
        if p in self.names:
            self.names.pop(p)
            self.journal.append(('remove', p))

    def mark(self, what=None):
        """the program makes progress elsewhere (a numerical call): everything written so far counts"""
        if len(self.journal) != self.last_mark_len:
            self.marks.append((len(self.journal), self.listing()))
            self.last_mark_len = len(self.journal)
            if self.on_mark:
                self.on_mark(self)

    def listing(self):
        return {os.path.relpath(p, self.root): bytes(self.data[i]) for p, i in self.names.items()}

    # ------------------------------------------------------------------ crash states
    def crash_state(self, at, split=None, model='kill', rng=None):
        """
        directory contents (dict name->bytes) found after a crash just before journal entry "at"
        (split: fraction of a write at position "at" that had made it to the kernel)
        model 'kill': the process dies, the kernel survives; 'power': file data not covered by an fsync
        survives completely, partly, as zeros, or not at all (per file, decided by rng); renames and
        removals are durable in order
        """
        names, data, durable, hist = {}, {}, {}, {}
        ino = 0
        for p, c in self.initial.items():
            ino += 1
            names[p] = ino
            data[ino] = bytearray(c)
            durable[ino] = bytes(c)
            hist[ino] = []
        ops = self.journal[:at]
        if split is not None and at < len(self.journal) and self.journal[at][0] == 'write':
            op = self.journal[at]
            ops = ops + [(op[0], op[1], op[2], op[3][:int(len(op[3]) * split)])]
        for op in ops:
            k = op[0]
            if k in ('create', 'adopt'):
                names[op[1]] = op[2]
                data[op[2]] = bytearray(op[3] if k == 'adopt' else b'')
                durable[op[2]] = bytes(data[op[2]])
                hist[op[2]] = []
            elif k == 'trunc':
                d = data[op[1]]
                if op[2] < len(d):
                    del d[op[2]:]
                else:
                    d += b'\0' * (op[2] - len(d))
                durable[op[1]] = durable[op[1]][:op[2]]
                hist[op[1]] = []
            elif k == 'write':
                d = data[op[1]]
                if len(d) < op[2]:
                    d += b'\0' * (op[2] - len(d))
                d[op[2]:op[2] + len(op[3])] = op[3]
                hist[op[1]].append((op[2], op[3]))
            elif k == 'fsync':
                durable[op[1]] = bytes(data[op[1]])
                hist[op[1]] = []
            elif k == 'rename':
                names[op[2]] = names.pop(op[1])
            elif k == 'link':
                names[op[2]] = names[op[1]]
            elif k == 'remove':
                names.pop(op[1], None)
        out = {}
        choice = {}
        for p, i in sorted(names.items()):
            if model == 'kill' or not hist[i]:
                c = bytes(data[i])
            else:
                if i not in choice:
                    choice[i] = rng.choice(['lost', 'lost', 'prefix', 'zero', 'full'])
                how = choice[i]
                if how == 'full':
                    c = bytes(data[i])
                elif how == 'lost':
                    c = durable[i]
                elif how == 'zero':
                    c = durable[i] + b'\0' * (len(data[i]) - len(durable[i]))
                else:
                    d = bytearray(durable[i])
                    k = rng.randrange(len(hist[i]))
                    for j, (pos, b) in enumerate(hist[i][:k + 1]):
                        if j == k:
                            b = b[:rng.randrange(len(b) + 1)]
                        if len(d) < pos:
                            d += b'\0' * (pos - len(d))
                        d[pos:pos + len(b)] = b
                    c = bytes(d)
            out[os.path.relpath(p, self.root)] = c
        return out

    # ------------------------------------------------------------------ install / remove the seam
    def __enter__(self):
        assert SimDisk.active is None
        SimDisk.active = self
        self.cwd = os.getcwd()
        os.chdir(self.root)
        install()
        return self

    def __exit__(self, *a):
        SimDisk.active = None
        os.chdir(self.cwd)
        return False


_installed = False


def _D():
    return SimDisk.active


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _D()
    if d is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file in d.fds:
            f = SimFile(d, d.fds[file], mode, 0 if buffering == 0 else 8192)
        else:
            return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        p = d.inside(file)
        if p is None:
            return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace('b', '').replace('t', '')
        if opener is not None:
            fd = opener(file, os.O_RDWR | os.O_CREAT)
            return _open(fd, mode, buffering, encoding, errors, newline, closefd)
        if m == 'r':
            d.fault('open', p)
            raw = ReadFile(d, _real['open'](p, 'rb', 0), p)
            f = io.BufferedReader(raw)
            if 'b' not in mode:
                return io.TextIOWrapper(f, encoding, errors, newline)
            return f
        h = d.k_open(p, create=m[0] in 'wax', excl=m[0] == 'x', trunc=m[0] == 'w', append=m[0] == 'a',
                     must_exist=m[0] == 'r')
        f = SimFile(d, h, mode, 0 if buffering == 0 else 8192)
    if 'b' not in mode:
        return io.TextIOWrapper(f, encoding, errors, newline)
    return f


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = _D()
    p = d.inside(path) if d is not None and dir_fd is None else None
    if p is None or os.path.isdir(p):
        return _real['os_open'](path, flags, mode, dir_fd=dir_fd)
    if flags & (os.O_WRONLY | os.O_RDWR):
        h = d.k_open(p, bool(flags & os.O_CREAT), bool(flags & os.O_EXCL), bool(flags & os.O_TRUNC),
                     bool(flags & os.O_APPEND))
        return h.fd
    d.fault('open', p)
    return _real['os_open'](path, flags, mode)


def _fdfun(name, do):
    real = _real[name]

    def f(fd, *a, **k):
        d = _D()
        if d is not None and not isinstance(fd, int) and hasattr(fd, 'fileno'):
            n = fd.fileno()
            if n in d.fds:
                return do(d, d.fds[n], *a)
        if d is not None and fd in d.fds:
            return do(d, d.fds[fd], *a)
        return real(fd, *a, **k)
    return f


def _two(name):
    real = _real[name]

    def f(src, dst, **k):
        d = _D()
        if d is not None:
            s, t = d.inside(src), d.inside(dst)
            if s is not None and t is not None:
                if name == 'os_link':
                    return d.k_link(s, t)
                return d.k_rename(s, t)
            if s is not None or t is not None:
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV))
        return real(src, dst, **k)
    return f


def _one(name):
    real = _real[name]

    def f(path, **k):
        d = _D()
        if d is not None:
            p = d.inside(path)
            if p is not None:
                return d.k_remove(p)
            # the code under test never removes anything outside its scratch directory
            raise OSError(errno.EPERM, 'simulator: removal outside the scratch directory', str(path))
        return real(path, **k)
    return f


def _truncate(path, length):
    d = _D()
    if d is not None and isinstance(path, int) and path in d.fds:
        return d.k_truncate(d.fds[path], length)
    p = d.inside(path) if d is not None else None
    if p is not None:
        h = d.k_open(p, False, False, False, False)
        d.k_truncate(h, length)
        d.k_close(h)
        return
    return _real['os_truncate'](path, length)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = _open
    io.open = _open
    os.open = _os_open
    os.write = _fdfun('os_write', lambda d, h, b: d.k_write(h, bytes(b)))
    os.close = _fdfun('os_close', lambda d, h: d.k_close(h))
    os.fsync = _fdfun('os_fsync', lambda d, h: d.k_fsync(h))
    os.fdatasync = _fdfun('os_fdatasync', lambda d, h: d.k_fsync(h))
    os.ftruncate = _fdfun('os_ftruncate', lambda d, h, n: d.k_truncate(h, n))
    os.fdopen = lambda fd, mode='r', buffering=-1, *a, **k: _open(fd, mode, buffering, *a, **k)
    os.replace = _two('os_replace')
    os.rename = _two('os_rename')
    os.link = _two('os_link')
    os.remove = _one('os_remove')
    os.unlink = _one('os_unlink')
    os.truncate = _truncate
    import shutil
    # copies go through the journaled open
    for n in ('_HAS_FCOPYFILE', '_USE_CP_SENDFILE'):
        if hasattr(shutil, n):
            setattr(shutil, n, False)
