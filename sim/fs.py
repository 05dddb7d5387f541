"""Simulated file system shared by all ranks, with journal and faults."""

import errno
import fnmatch
import io
import os
import pathlib
import posixpath
import types
from xml.etree import ElementTree

import numpy as np

from .kernel import HarnessError, SimAbort


def norm(path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = path.decode()
    path = posixpath.normpath(path)
    return path[5:] if path.startswith('/sim/') else '.' if path == '/sim' \
        else path


class SimFS:
    def __init__(self, files=None, dirs=()):
        self.files = {}
        self.dirs = {'.', '/'}
        self.journal = []
        self.log = []           # (rank, operation, path, bytes)
        self.world = None
        self.frozen = False
        self.ops = 0
        self.fault = None       # f(rank, op, path, size) -> None | int | raise
        self.visible = None     # f(rank, path) -> bool
        self.shell = None       # f(command) -> status
        self.fds = {}
        self.maps = []          # (file, offset, memory)
        self.dirfd = 0
        self.initial = {}
        self.bufsize = 8192
        for d in dirs:
            self.dirs.add(norm(d))
        for name, data in (files or {}).items():
            if isinstance(data, str):
                data = data.encode()
            self.files[norm(name)] = bytearray(data)
        self.initial = {k: bytes(v) for k, v in self.files.items()}

    # ------------------------------------------------------------- operations

    def rank(self):
        if self.world is None:
            return 0
        me = self.world.kernel.current
        return me.index if me is not None else 0

    def op(self, op, path, size=0):
        """Account for operation; may fail. Returns permitted size or None."""
        if self.frozen:
            raise SimAbort('crash')
        rank = self.rank()
        self.ops += 1
        self.log.append((rank, op, path, size))
        limit = None
        if self.world is not None:
            self.world.kernel.yield_point('fs.%s:%s' % (op, path))
            if self.frozen:
                raise SimAbort('crash')
        if self.fault is not None:
            limit = self.fault(rank, op, path, size)
        return limit

    def exists(self, path, rank=None):
        path = norm(path)
        rank = self.rank() if rank is None else rank
        if path in self.files:
            return self.visible is None or self.visible(rank, path)
        return self.isdir(path)

    def isfile(self, path):
        path = norm(path)
        return path in self.files and self.exists(path)

    def isdir(self, path):
        path = norm(path)
        if path in self.dirs:
            return True
        return any(f.startswith(path + '/') for f in self.files)

    def record(self, *entry):
        self.journal.append(entry)

    def create(self, path, truncate):
        if path not in self.files:
            self.files[path] = bytearray()
            self.record('create', path)
        elif truncate:
            del self.files[path][:]
            self.record('trunc', path, 0)
            self.remap(self.files[path])

    def overwrite(self, path):
        """Change content of file as another program could."""
        f = self.files[norm(path)]
        for i in range(len(f)):
            f[i] ^= 5
        self.remap(f)

    def remap(self, f):
        """Update arrays mapped to file content."""
        for g, offset, base in self.maps:
            if g is f:
                data = np.frombuffer(bytes(f[offset:offset + base.size]),
                    np.uint8)
                base[:data.size] = data
                base[data.size:] = 0

    def map(self, path, offset, dtype, shape, order):
        """Map array to file content."""
        dtype = np.dtype(dtype)
        base = np.zeros(int(np.prod(shape)) * dtype.itemsize, np.uint8)
        f = self.files[norm(path)]
        self.maps.append((f, offset, base))
        self.remap(f)
        a = base.view(dtype).reshape(shape, order=order)
        a.flags.writeable = False
        return a

    def rename(self, a, b):
        a, b = norm(a), norm(b)
        self.op('rename', a)
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file', a)
        self.files[b] = self.files.pop(a)
        self.record('rename', a, b)

    def unlink(self, a):
        a = norm(a)
        self.op('unlink', a)
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file', a)
        del self.files[a]
        self.record('unlink', a)

    def image(self):
        return {k: bytes(v) for k, v in self.files.items()}

    # ------------------------------------------------------------------ crash

    def after_crash(self, mode, rng):
        """Files found after restart.

        mode 'kill': everything handed to the operating system survives.
        mode 'power': only a prefix of the journal survives, last write torn.
        mode 'unordered': names survive, unsynced data partly not.
        """
        j = self.journal
        synced = {}
        last = 0
        for i, e in enumerate(j):
            if e[0] == 'fsync':
                last = i + 1
        if mode == 'kill':
            return replay(self.initial, j)
        if mode == 'power':
            cut = rng.randrange(last, len(j) + 1)
            kept = list(j[:cut])
            if cut < len(j) and j[cut][0] == 'write':
                _, p, off, data = j[cut]
                kept.append(('write', p, off, data[:rng.randrange(
                    len(data) + 1)]))
            return replay(self.initial, kept)
        # unordered: per written file, a prefix of unsynced data is kept
        kept = []
        dead = set()
        for i, e in enumerate(j):
            if e[0] == 'write' and i >= last:
                if e[1] in dead:
                    continue
                if rng.random() < 0.5:
                    dead.add(e[1])
                    e = e[:3] + (e[3][:rng.randrange(len(e[3]) + 1)],)
            kept.append(e)
        return replay(self.initial, kept)

    # ------------------------------------------------------------------- open

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
            newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            return self.wrap(self.fds[file], mode, buffering, encoding, errors,
                newline)
        path = norm(file)
        flags = set(mode)
        rank = self.rank()
        limit = self.op('open', path)
        if self.isdir(path) and path not in self.files:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        found = self.exists(path, rank)
        if 'x' in flags and found:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        if 'r' in flags and not found:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                path)
        if flags & set('wxa'):
            parent = posixpath.dirname(path)
            if parent and not self.isdir(parent):
                raise FileNotFoundError(errno.ENOENT,
                    'No such file or directory', path)
            self.create(path, 'w' in flags)
        raw = Raw(self, path, flags, rank)
        return self.wrap(raw, mode, buffering, encoding, errors, newline)

    def wrap(self, raw, mode, buffering=-1, encoding=None, errors=None,
            newline=None):
        flags = set(mode)
        if buffering == 0:
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if '+' in flags:
            buf = io.BufferedRandom(raw, size)
        elif flags & set('wxa'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in flags:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
            line_buffering=buffering == 1)
        text.mode = mode
        return text


def replay(initial, journal):
    files = {k: bytearray(v) for k, v in initial.items()}
    for e in journal:
        if e[0] == 'create':
            files[e[1]] = bytearray()
        elif e[0] == 'trunc':
            if e[1] in files:
                f = files[e[1]]
                del f[e[2]:]
                f.extend(b'\0' * (e[2] - len(f)))
        elif e[0] == 'write':
            f = files.setdefault(e[1], bytearray())
            put(f, e[2], e[3])
        elif e[0] == 'rename':
            if e[1] in files:
                files[e[2]] = files.pop(e[1])
        elif e[0] == 'unlink':
            files.pop(e[1], None)
    return {k: bytes(v) for k, v in files.items()}


def put(f, off, data):
    if off > len(f):
        f.extend(b'\0' * (off - len(f)))
    f[off:off + len(data)] = data


class Raw(io.RawIOBase):
    def __init__(self, fs, path, flags, rank):
        self.fs = fs
        self.path = self.name = path
        self.flags = flags
        self.mode = ''.join(sorted(flags - {'t'}))
        self.rank = rank
        self.pos = 0
        self.file = fs.files[path]
        if 'a' in flags:
            self.pos = len(self.file)
        self.fd = 1000000 + len(fs.fds)
        fs.fds[self.fd] = self

    def readable(self):
        return bool(self.flags & set('r+'))

    def writable(self):
        return bool(self.flags & set('wxa+'))

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        limit = self.fs.op('read', self.path, len(b))
        n = min(len(b), max(0, len(self.file) - self.pos))
        if limit is not None and n > 1:
            n = max(1, min(n, limit))
        b[:n] = self.file[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        if self.fs.frozen:
            return len(b)
        data = bytes(b)
        limit = self.fs.op('write', self.path, len(data))
        if 'a' in self.flags:
            self.pos = len(self.file)
        if limit is not None:
            data = data[:max(1, limit)]
        put(self.file, self.pos, data)
        self.fs.remap(self.file)
        self.fs.record('write', self.path, self.pos, data)
        self.pos += len(data)
        return len(data)

    def seek(self, offset, whence=0):
        self.pos = offset + (0, self.pos, len(self.file))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        self.fs.op('truncate', self.path, size)
        f = self.file
        del f[size:]
        f.extend(b'\0' * (size - len(f)))
        self.fs.record('trunc', self.path, size)
        self.fs.remap(f)
        return size

    def close(self):
        if not self.closed:
            super().close()


# ------------------------------------------------------------ module stand-ins


def os_module(fs, world, rank):
    m = types.ModuleType('os')
    p = types.ModuleType('posixpath')

    for name in dir(posixpath):
        if name in ('join', 'split', 'splitext', 'basename', 'dirname', 'sep',
                'normpath', 'isabs', 'commonprefix', 'commonpath', 'curdir',
                'pardir', 'extsep', 'expandvars', 'normcase', 'splitdrive'):
            setattr(p, name, getattr(posixpath, name))

    p.exists = p.lexists = fs.exists
    p.isfile = fs.isfile
    p.isdir = fs.isdir
    p.islink = lambda path: False
    p.abspath = p.realpath = lambda path, **kw: posixpath.normpath(
        posixpath.join('/sim', path))
    p.expanduser = lambda path: path
    p.relpath = lambda path, start=None: norm(path)

    def getsize(path):
        path = norm(path)
        fs.op('stat', path)
        if not fs.isfile(path):
            raise FileNotFoundError(errno.ENOENT, 'No such file', path)
        return len(fs.files[path])

    p.getsize = getsize
    p.getmtime = p.getctime = p.getatime = lambda path: 0.0 * getsize(path) \
        + world.clock(rank)

    m.path = p
    m.sep = '/'
    m.linesep = '\n'
    m.name = 'posix'
    m.curdir = '.'
    m.devnull = '/dev/null'
    m.environ = {'HOME': '/sim'}
    m.getenv = m.environ.get
    m.fspath = os.fspath
    m.getpid = lambda: 4000 + rank
    m.getcwd = lambda: '/sim'
    m.cpu_count = lambda: 8
    m.PathLike = os.PathLike
    m.error = OSError
    m.urandom = lambda n: world.rank_random[rank].randbytes(n)
    m.rename = m.replace = fs.rename
    m.remove = m.unlink = fs.unlink
    m.strerror = os.strerror
    m.SEEK_SET, m.SEEK_CUR, m.SEEK_END = 0, 1, 2

    def fsync(fd):
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        if fd not in fs.fds:
            return
        path = fs.fds[fd].path
        fs.op('fsync', path)
        fs.record('fsync', path)

    m.fsync = m.fdatasync = fsync

    for name in dir(os):
        if name.startswith('O_'):
            setattr(m, name, getattr(os, name))

    def open_(path, flags, mode=0o777, dir_fd=None):
        if fs.isdir(path) and norm(path) not in fs.files:
            fs.dirfd += 1
            return -fs.dirfd # as used to flush directories
        access = flags & (os.O_WRONLY | os.O_RDWR)
        if flags & os.O_CREAT and flags & os.O_EXCL:
            kind = 'x'
        elif flags & os.O_TRUNC:
            if not flags & os.O_CREAT and not fs.exists(path):
                raise FileNotFoundError(errno.ENOENT, 'No such file', path)
            kind = 'w'
        elif flags & os.O_CREAT or flags & os.O_APPEND:
            kind = 'a'
        else:
            kind = 'r'
        raw = fs.open(path, kind + ('' if kind == 'r' and not access else '+')
            + 'b', 0)
        if not flags & os.O_APPEND:
            raw.flags.discard('a')
            raw.pos = 0
        return raw.fileno()

    def get(fd):
        if fd not in fs.fds:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return fs.fds[fd]

    def write(fd, data):
        return get(fd).write(data)

    def read(fd, n):
        return get(fd).read(n)

    def close(fd):
        if fd in fs.fds:
            fs.fds[fd].close()

    def access(path, mode, **kwargs):
        return fs.exists(path)

    def truncate(path, size):
        with fs.open(path, 'r+b') as f:
            f.truncate(size)

    def fdopen(fd, mode='r', *args, **kwargs):
        get(fd)
        return fs.open(fd, mode, *args, **kwargs)

    m.open, m.fdopen, m.write, m.read, m.close = open_, fdopen, write, read, \
        close
    m.access, m.truncate = access, truncate
    m.F_OK, m.R_OK, m.W_OK, m.X_OK = os.F_OK, os.R_OK, os.W_OK, os.X_OK
    m.ftruncate = lambda fd, size: get(fd).truncate(size)
    m.chmod = m.utime = m.chown = m.sync = m.umask = lambda *a, **k: None
    m.getppid = lambda: 3999
    m.umask = lambda mask: 0o22

    def mkdir(path, mode=511):
        path = norm(path)
        fs.op('mkdir', path)
        if fs.exists(path):
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        fs.dirs.add(path)

    def makedirs(path, mode=511, exist_ok=False):
        path = norm(path)
        if fs.exists(path) and not exist_ok:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        parts = path.split('/')
        for i in range(1, len(parts) + 1):
            fs.dirs.add('/'.join(parts[:i]) or '/')

    m.mkdir = mkdir
    m.makedirs = makedirs

    def listdir(path='.'):
        path = norm(path)
        pre = '' if path == '.' else path + '/'
        names = {f[len(pre):].split('/')[0] for f in fs.files
            if f.startswith(pre)}
        names |= {d[len(pre):].split('/')[0] for d in fs.dirs
            if d.startswith(pre) and d not in (path, '.', '/')}
        names = sorted(names)
        world.rank_random[rank].shuffle(names)
        return names

    m.listdir = listdir

    def stat(path):
        s = types.SimpleNamespace()
        s.st_size = getsize(path)
        s.st_mtime = world.clock(rank)
        s.st_mode = 0o100644
        return s

    m.stat = stat

    def walk(top='.', topdown=True, **kwargs):
        names = listdir(top)
        dirs = [n for n in names if fs.isdir(posixpath.join(top, n))]
        yield top, dirs, [n for n in names if n not in dirs]
        for d in dirs:
            yield from walk(posixpath.join(top, d))

    m.walk = walk

    def rmdir(path):
        if listdir(path):
            raise OSError(errno.ENOTEMPTY, 'Directory not empty', path)
        fs.dirs.discard(norm(path))

    m.rmdir = rmdir

    def missing(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise HarnessError('os.%s is not simulated' % name)

    m.system = lambda cmd: fs.shell(cmd) if fs.shell else missing('system')
    m.__getattr__ = missing
    p.__getattr__ = missing
    return m


def glob_module(fs, world, rank):
    m = types.ModuleType('glob')

    def glob(pattern, **kwargs):
        pattern = norm(pattern)
        depth = pattern.count('/')
        names = set()
        for f in list(fs.files) + list(fs.dirs - {'.', '/'}):
            parts = f.split('/')
            cut = '/'.join(parts[:depth + 1])
            if len(parts) > depth and fnmatch.fnmatchcase(cut, pattern):
                names.add(cut)
        names = sorted(names)
        world.rank_random[rank].shuffle(names)
        return names

    m.glob = glob
    m.iglob = lambda *a, **k: iter(glob(*a, **k))
    return m


def xml_module(fs):
    m = types.ModuleType('xml.etree.ElementTree')
    m.__dict__.update(vars(ElementTree))

    def parse(source, parser=None):
        if hasattr(source, 'read'):
            return ElementTree.parse(source, parser)
        with fs.open(source, 'rb') as f:
            return ElementTree.parse(f, parser)

    m.parse = parse
    return m


def shutil_module(fs, world, rank):
    m = types.ModuleType('shutil')

    def copyfile(a, b, **kwargs):
        if fs.isdir(b):
            b = posixpath.join(norm(b), posixpath.basename(norm(a)))
        with fs.open(a, 'rb') as src:
            data = src.read()
        with fs.open(b, 'wb') as dst:
            dst.write(data)
        return b

    def copytree(a, b, **kwargs):
        a, b = norm(a), norm(b)
        fs.dirs.add(b)
        for f in sorted(fs.files):
            if f.startswith(a + '/'):
                t = b + f[len(a):]
                fs.dirs.add(posixpath.dirname(t))
                copyfile(f, t)
        return b

    def rmtree(path, *args, **kwargs):
        path = norm(path)
        for f in sorted(fs.files):
            if f.startswith(path + '/'):
                fs.unlink(f)
        fs.dirs -= {d for d in fs.dirs if d == path
            or d.startswith(path + '/')}

    def missing(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise HarnessError('shutil.%s is not simulated' % name)

    def copyfileobj(a, b, length=65536):
        while True:
            data = a.read(length)
            if not data:
                break
            b.write(data)

    m.rmtree, m.copyfileobj = rmtree, copyfileobj
    m.copymode = m.copystat = lambda *a, **k: None

    m.copy = m.copy2 = m.copyfile = copyfile
    m.copytree = copytree
    m.move = lambda a, b: fs.rename(a, b)
    m.get_terminal_size = lambda *a, **k: os.terminal_size((80, 24))
    m.__getattr__ = missing
    return m


def tempfile_module(fs, world, rank, os_):
    m = types.ModuleType('tempfile')
    rng = world.rank_random[rank]
    m.tempdir = None

    def name(suffix=None, prefix=None, dir=None):
        dir = gettempdir() if dir is None else os.fspath(dir)
        return posixpath.join(dir, '%s%08x%s' % ('tmp' if prefix is None
            else prefix, rng.getrandbits(32), suffix or ''))

    def gettempdir():
        fs.dirs.add('/tmp')
        return '/tmp'

    def mkstemp(suffix=None, prefix=None, dir=None, text=False):
        path = name(suffix, prefix, dir)
        return os_.open(path, os.O_CREAT | os.O_EXCL | os.O_RDWR), path

    def mkdtemp(suffix=None, prefix=None, dir=None):
        path = name(suffix, prefix, dir)
        os_.mkdir(path)
        return path

    class Temporary:
        def __init__(self, mode='w+b', buffering=-1, encoding=None,
                newline=None, suffix=None, prefix=None, dir=None, delete=True,
                **kwargs):
            self.name = name(suffix, prefix, dir)
            self.file = fs.open(self.name, mode.replace('w', 'x'), buffering,
                encoding, None, newline)
            self.delete = delete

        def __getattr__(self, key):
            return getattr(self.file, key)

        def __iter__(self):
            return iter(self.file)

        def __enter__(self):
            return self

        def __exit__(self, *args):
            self.close()

        def close(self):
            if not self.file.closed:
                self.file.close()
                if self.delete and fs.exists(self.name):
                    fs.unlink(self.name)

    class TemporaryDirectory:
        def __init__(self, suffix=None, prefix=None, dir=None, **kwargs):
            self.name = mkdtemp(suffix, prefix, dir)

        def __enter__(self):
            return self.name

        def __exit__(self, *args):
            self.cleanup()

        def cleanup(self):
            for f in sorted(fs.files):
                if f.startswith(self.name + '/'):
                    fs.unlink(f)
            fs.dirs.discard(self.name)

    m.gettempdir, m.mkstemp, m.mkdtemp = gettempdir, mkstemp, mkdtemp
    m.NamedTemporaryFile = m.TemporaryFile = Temporary
    m.TemporaryDirectory = TemporaryDirectory
    m.mktemp = name
    return m


def pathlib_module(fs, world, rank, os_):
    m = types.ModuleType('pathlib')
    glob_ = glob_module(fs, world, rank)

    class Path(pathlib.PurePosixPath):
        def open(self, mode='r', *args, **kwargs):
            return fs.open(self, mode, *args, **kwargs)

        def exists(self, **kwargs):
            return fs.exists(self)

        def is_file(self):
            return fs.isfile(self)

        def is_dir(self):
            return fs.isdir(self)

        def read_text(self, *args, **kwargs):
            with fs.open(self) as f:
                return f.read()

        def read_bytes(self):
            with fs.open(self, 'rb') as f:
                return f.read()

        def write_text(self, data, *args, **kwargs):
            with fs.open(self, 'w') as f:
                return f.write(data)

        def write_bytes(self, data):
            with fs.open(self, 'wb') as f:
                return f.write(data)

        def unlink(self, missing_ok=False):
            if not missing_ok or fs.exists(self):
                fs.unlink(self)

        def rename(self, target):
            fs.rename(self, target)
            return type(self)(target)

        replace = rename

        def touch(self, mode=0o666, exist_ok=True):
            fs.open(self, 'a').close()

        def mkdir(self, mode=511, parents=False, exist_ok=False):
            if fs.isdir(self) and exist_ok:
                return
            (os_.makedirs if parents else os_.mkdir)(self)

        def stat(self):
            return os_.stat(self)

        def iterdir(self):
            for name in os_.listdir(self):
                yield self / name

        def glob(self, pattern):
            for name in glob_.glob(str(self / pattern)):
                yield type(self)(name)

        def resolve(self, strict=False):
            return type(self)(os_.path.abspath(self))

        absolute = resolve

        def expanduser(self):
            return self

        @classmethod
        def cwd(cls):
            return cls('/sim')

    m.Path = m.PosixPath = Path
    m.PurePath = m.PurePosixPath = pathlib.PurePosixPath
    return m


# ----------------------------------------------------------------- NumPy files


class NumpyIO:
    def __init__(self, fs):
        self.fs = fs

    def _bytes(self, file, mode='rb'):
        if hasattr(file, 'read'):
            return file.read()
        with self.fs.open(file, mode) as f:
            return f.read()

    def load(self, file, mmap_mode=None, **kwargs):
        data = self._bytes(file)
        if not data:
            raise EOFError('No data left in file')
        # np.load falls back to pickle for unknown headers
        out = np.load(io.BytesIO(data), **kwargs)
        if mmap_mode in ('r+', 'w+'):
            raise HarnessError('np.load with mapping for writing')
        if mmap_mode == 'r' and isinstance(out, np.ndarray):
            order = 'C' if out.flags.c_contiguous else 'F'
            out = self.fs.map(file, len(data) - out.nbytes, out.dtype,
                out.shape, order)
        return out

    def _dump(self, file, suffix, data):
        if hasattr(file, 'write'):
            write = file
            for i in range(0, len(data), 4096):
                write.write(data[i:i + 4096])
            return
        file = os.fspath(file)
        if not file.endswith(suffix):
            file += suffix
        with self.fs.open(file, 'wb', 4096) as f:
            for i in range(0, len(data), 4096):
                f.write(data[i:i + 4096])

    def save(self, file, arr, *args, **kwargs):
        buf = io.BytesIO()
        np.save(buf, arr, *args, **kwargs)
        self._dump(file, '.npy', buf.getvalue())

    def savez(self, file, *args, **kwargs):
        buf = io.BytesIO()
        np.savez(buf, *args, **kwargs)
        self._dump(file, '.npz', buf.getvalue())

    def savez_compressed(self, file, *args, **kwargs):
        buf = io.BytesIO()
        np.savez_compressed(buf, *args, **kwargs)
        self._dump(file, '.npz', buf.getvalue())

    def _text(self, file):
        data = self._bytes(file, 'r')
        if isinstance(data, bytes):
            data = data.decode()
        return io.StringIO(data)

    def loadtxt(self, fname, *args, **kwargs):
        if not isinstance(fname, (str, os.PathLike)) \
                and not hasattr(fname, 'read'):
            return np.loadtxt(fname, *args, **kwargs)
        return np.loadtxt(self._text(fname), *args, **kwargs)

    def genfromtxt(self, fname, *args, **kwargs):
        if not isinstance(fname, (str, os.PathLike)) \
                and not hasattr(fname, 'read'):
            return np.genfromtxt(fname, *args, **kwargs)
        return np.genfromtxt(self._text(fname), *args, **kwargs)

    def savetxt(self, fname, X, *args, **kwargs):
        if hasattr(fname, 'write'):
            return np.savetxt(fname, X, *args, **kwargs)
        with self.fs.open(fname, 'w') as f:
            np.savetxt(f, X, *args, **kwargs)

    def fromfile(self, file, dtype=float, count=-1, sep='', offset=0, **kw):
        if sep:
            raise HarnessError('np.fromfile with separator')
        dtype = np.dtype(dtype)
        if hasattr(file, 'read'):
            f = file
            close = False
        else:
            f = self.fs.open(file, 'rb')
            close = True
        if offset:
            f.seek(offset, 1)
        count = int(count)
        data = f.read() if count < 0 else f.read(count * dtype.itemsize)
        used = len(data) // dtype.itemsize * dtype.itemsize
        if used < len(data):
            f.seek(used - len(data), 1)
        if close:
            f.close()
        return np.frombuffer(data[:used], dtype=dtype).copy()

    def tofile(self, array, file, sep='', format='%s'):
        if sep:
            raise HarnessError('ndarray.tofile with separator')
        if not isinstance(array, np.ndarray):
            return array.tofile(file)
        data = array.tobytes()
        if hasattr(file, 'write'):
            file.write(data)
        else:
            with self.fs.open(file, 'wb') as f:
                f.write(data)

    def memmap(self, filename, dtype=np.uint8, mode='r+', offset=0, shape=None,
            order='C'):
        if mode not in ('r', 'c'):
            raise HarnessError('np.memmap for writing is not simulated')
        size = len(self._bytes(filename)) - offset
        dtype = np.dtype(dtype)
        if shape is None:
            shape = size // dtype.itemsize
        if np.prod(shape, dtype=int) * dtype.itemsize > size:
            raise ValueError('mmap length is greater than file size')
        a = self.fs.map(filename, offset, dtype, shape, order)
        return a.copy() if mode == 'c' else a
