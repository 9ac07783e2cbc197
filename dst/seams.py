"""Seams between parcels and the outside world.

`install()` must run before parcels (and anything that may bind these functions) is imported.  Every wrapper is
transparent unless a scenario activates the corresponding seam on the module-level `S` object.
"""
import builtins
import datetime
import errno
import hashlib
import io
import os
import shutil
import subprocess
import sys
import time as _time
import timeit
import types

REAL = {}
PKG_DIR = '/repo'


class State(object):
    def __init__(self):
        self.reset()
        self.ccache = None

    def reset(self):
        self.fs_root = None        # absolute path prefix under simulation
        self.fs_hook = None        # callable(op, relpath, info) ; may raise, exit or switch task
        self.bufsize = 8192
        self.clock = None          # callable() -> float
        self.compiler_hook = None  # callable(cmd) ; may raise
        self.read_hook = None      # callable(op, path) for field data
        self.depth = 0


S = State()


def confine(parent):
    """The calling process ends with its parent, and its memory is limited."""
    import ctypes
    import resource
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    if os.getppid() != parent:
        os._exit(97)


def _rel(path):
    """Path relative to the simulated disk, or None when it is outside of it."""
    if S.fs_root is None or S.fs_hook is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    if p == S.fs_root or p.startswith(S.fs_root + os.sep):
        return os.path.relpath(p, S.fs_root)
    return None


def _fire(op, rel, info=None):
    if S.depth:
        return None
    S.depth += 1
    try:
        return S.fs_hook(op, rel, info)
    finally:
        S.depth -= 1


class SimRaw(io.RawIOBase):
    """Raw file on the simulated disk: every transfer to the disk is an event."""

    def __init__(self, path, rel, mode):
        self._rel = rel
        self._f = REAL['open'](path, mode, buffering=0)
        self.name = path
        self.mode = mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def readinto(self, b):
        return self._f.readinto(b)

    def write(self, b):
        data = bytes(b)
        part = _fire('write', self._rel, {'n': len(data), 'file': self._f, 'data': data}) if S.fs_hook else None
        if part is not None and part < len(data):      # short write
            return self._f.write(data[:part]) if part > 0 else 0
        return self._f.write(data)

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def fileno(self):
        return self._f.fileno()

    def close(self):
        if not self.closed:
            try:
                if S.fs_hook is not None:
                    _fire('close', self._rel)
            finally:
                self._f.close()
                super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    rel = _rel(file) if isinstance(file, (str, bytes, os.PathLike)) else None
    if rel is None or S.depth:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    _fire('open_w' if writing else 'open_r', rel)
    if not writing:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = mode.replace('t', '').replace('b', '') + 'b'
    raw = SimRaw(file, rel, rawmode)
    if buffering == 0:
        return raw
    if '+' in mode:
        buf = io.BufferedRandom(raw, S.bufsize)
    else:
        buf = io.BufferedWriter(raw, S.bufsize)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline)
    t.mode = mode
    return t


def _wrap1(name, op, argn=0):
    real = REAL[name]

    def f(*a, **k):
        if S.fs_hook is not None and not S.depth and len(a) > argn:
            rel = _rel(a[argn])
            if rel is not None and 'dir_fd' not in k:
                _fire(op, rel)
        return real(*a, **k)
    f.__name__ = name.split('.')[-1]
    f.__wrapped__ = real
    return f


def _wrap2(name, op):
    real = REAL[name]

    def f(src, dst, *a, **k):
        if S.fs_hook is not None and not S.depth:
            rel = _rel(dst)
            if rel is None:
                rel = _rel(src)
            if rel is not None:
                _fire(op, rel)
        return real(src, dst, *a, **k)
    f.__name__ = name.split('.')[-1]
    return f


def sim_rmtree(path, *a, **k):
    rel = _rel(path) if isinstance(path, (str, os.PathLike)) else None
    if rel is None or S.depth:
        return REAL['shutil.rmtree'](path, *a, **k)
    ignore = bool(k.get('ignore_errors') or (len(a) > 0 and a[0]))
    try:
        # the same removal, file by file, each an event
        for dirpath, dirs, files in os.walk(path, topdown=False):
            for fn in sorted(files):
                os.remove(os.path.join(dirpath, fn))
            os.rmdir(dirpath)
    except OSError:
        if not ignore:
            raise


def sim_time():
    c = S.clock
    return REAL['time.time']() if c is None else c()


def sim_timer():
    c = S.clock
    return REAL['timeit.default_timer']() if c is None else c()


class SimDatetime(datetime.datetime):
    """datetime as the progress display sees it."""
    @classmethod
    def now(cls, tz=None):
        c = S.clock
        return datetime.datetime.now(tz) if c is None else datetime.datetime.fromtimestamp(c(), tz)


def _key(cmd):
    h = hashlib.sha256()
    out = None
    i = 0
    src = []
    while i < len(cmd):
        c = str(cmd[i])
        if c == '-o' and i + 1 < len(cmd):
            out = str(cmd[i + 1])
            i += 2
            continue
        if c.endswith('.c') and os.path.isfile(c):
            src.append(c)
        else:
            h.update(c.encode() + b'\0')
        if c.startswith('-I') and os.path.isdir(c[2:]) and c[2:] not in ('.', ''):
            for fn in sorted(os.listdir(c[2:])):
                if fn.endswith('.h'):
                    with REAL['open'](os.path.join(c[2:], fn), 'rb') as f:
                        h.update(f.read())
        i += 1
    for s in src:
        with REAL['open'](s, 'rb') as f:
            h.update(f.read())
    return h.hexdigest(), out, src


def _compile_memo(cmd, kw):
    """Real compiler, with its result memoised by content.  Returns None when `cmd` is not a compilation."""
    if S.ccache is None or not isinstance(cmd, (list, tuple)):
        return None
    key, out, src = _key(cmd)
    if out is None or not src:
        return None
    cached = os.path.join(S.ccache, key)
    if not os.path.exists(cached):
        tmp = cached + '.%d.tmp' % os.getpid()
        c2 = [str(c) for c in cmd]
        c2[c2.index('-o') + 1] = tmp
        rc = REAL['subprocess.call'](c2, **kw)
        if rc != 0:
            return rc
        REAL['os.replace'](tmp, cached)
    REAL['shutil.copyfile'](cached, out)
    os.chmod(out, 0o755)
    return 0


def sim_check_call(*a, **k):
    if getattr(S, 'incall', False):
        return REAL['subprocess.check_call'](*a, **k)
    cmd = a[0] if a else k.get('args')
    if S.compiler_hook is not None and S.compiler_hook(cmd) == 'done':
        return 0
    if len(a) == 1:
        d = S.depth
        S.depth += 1
        try:
            rc = _compile_memo(cmd, k)
        finally:
            S.depth = d
        if rc is not None:
            if rc:
                raise subprocess.CalledProcessError(rc, cmd)
            return 0
    S.incall = True
    try:
        return REAL['subprocess.check_call'](*a, **k)
    finally:
        S.incall = False


def sim_call(*a, **k):
    if getattr(S, 'incall', False):
        return REAL['subprocess.call'](*a, **k)
    try:
        return sim_check_call(*a, **k)
    except subprocess.CalledProcessError as e:
        return e.returncode


def sim_run(*a, **k):
    cmd = a[0] if a else k.get('args')
    if len(a) == 1 and S.ccache is not None and isinstance(cmd, (list, tuple)) and '-o' in cmd \
            and not k.get('capture_output') and set(k) <= {'stdout', 'stderr', 'check'}:
        check = k.pop('check', False)
        try:
            rc = sim_check_call(cmd, **k)
        except subprocess.CalledProcessError as e:
            if check:
                raise
            return subprocess.CompletedProcess(cmd, e.returncode)
        return subprocess.CompletedProcess(cmd, rc)
    return REAL['subprocess.run'](*a, **k)


def sim_system(cmd):
    if str(cmd).endswith('--version'):
        return 0
    return REAL['os.system'](cmd)


class OsError(OSError):
    """Marker base for injected errors, so that a propagated fault can be told from a genuine one."""
    injected = True


def mkerr(kind, path=''):
    e = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES, 'enoent': errno.ENOENT,
         'edquot': errno.EDQUOT, 'emfile': errno.EMFILE}[kind]
    err = OsError(e, os.strerror(e), path)
    return err


def install():
    if REAL:
        return
    REAL.update({'open': builtins.open, 'time.time': _time.time,
                 'subprocess.check_call': subprocess.check_call, 'subprocess.call': subprocess.call,
                 'subprocess.run': subprocess.run, 'os.system': os.system, 'timeit.default_timer': timeit.default_timer,
                 'shutil.rmtree': shutil.rmtree, 'shutil.copyfile': shutil.copyfile})
    for n in ('replace', 'rename', 'remove', 'unlink', 'mkdir', 'makedirs', 'rmdir', 'link'):
        REAL['os.' + n] = getattr(os, n)
    builtins.open = sim_open
    io.open = sim_open
    _time.time = sim_time
    timeit.default_timer = sim_timer
    subprocess.check_call = sim_check_call
    subprocess.call = sim_call
    subprocess.run = sim_run
    os.system = sim_system
    shutil.rmtree = sim_rmtree
    os.replace = _wrap2('os.replace', 'rename')
    os.rename = _wrap2('os.rename', 'rename')
    os.link = _wrap2('os.link', 'rename')
    os.remove = _wrap1('os.remove', 'remove')
    os.unlink = _wrap1('os.unlink', 'remove')
    os.mkdir = _wrap1('os.mkdir', 'mkdir')
    os.rmdir = _wrap1('os.rmdir', 'rmdir')
    # field-data and NetCDF seams are installed after their libraries are imported (see install_libs)


def install_libs():
    """Wrap library entry points; must also run before parcels is imported."""
    if 'netCDF4.Dataset' in REAL:
        return
    import netCDF4
    REAL['netCDF4.Dataset'] = netCDF4.Dataset

    class Dataset(netCDF4.Dataset):
        """netCDF4.Dataset whose creation, definition of variables and closing are events of the simulated disk."""
        def __init__(self, filename, mode='r', *a, **k):
            rel = _rel(filename) if isinstance(filename, (str, os.PathLike)) else None
            _SIMREL.pop(id(self), None)
            if rel is not None and mode != 'r' and not S.depth:
                _fire('nc_create', rel)
                super().__init__(filename, mode, *a, **k)
                _SIMREL[id(self)] = rel
            else:
                super().__init__(filename, mode, *a, **k)

        def createVariable(self, *a, **k):
            rel = _SIMREL.get(id(self))
            if rel is not None and S.fs_hook is not None and not S.depth:
                _fire('nc_var', rel)
            return super().createVariable(*a, **k)

        def close(self):
            rel = _SIMREL.pop(id(self), None)
            if rel is not None and S.fs_hook is not None and not S.depth:
                try:
                    _fire('nc_close', rel)
                except OSError:
                    super().close()
                    raise
            return super().close()

    Dataset.__name__ = 'Dataset'
    netCDF4.Dataset = Dataset
    try:
        import progressbar.bar
        progressbar.bar.datetime = SimDatetime
    except ImportError:
        pass
    import xarray as xr
    REAL['xr.open_dataset'] = xr.open_dataset

    def open_dataset(filename_or_obj, *a, **k):
        if S.read_hook is not None:
            S.read_hook('open', filename_or_obj)
        return REAL['xr.open_dataset'](filename_or_obj, *a, **k)
    xr.open_dataset = open_dataset
    from xarray.backends import netCDF4_ as nb
    real_get = nb.NetCDF4ArrayWrapper.__getitem__

    def getitem(self, key):
        if S.read_hook is not None:
            S.read_hook('read', self.variable_name)
        return real_get(self, key)
    nb.NetCDF4ArrayWrapper.__getitem__ = getitem


_SIMREL = {}
