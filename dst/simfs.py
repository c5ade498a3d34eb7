"""A simulated file system under /sim: every open, read, write, stat and
listing of a path below /sim is served here, with fault points; other paths
go to the real file system untouched.

The seam is the operating-system boundary (builtins.open / io.open /
io.FileIO / os.*): buffering, text decoding and everything above is real.
"""
import builtins
import errno
import io
import os
import stat as stat_mod
import sys

from .world import Interrupt, SimCrash

ROOT = '/sim'
READ_ERR = [errno.EIO, errno.ESTALE, errno.ETIMEDOUT, errno.ENOMEM, errno.EISDIR]
OPEN_ERR = [errno.EMFILE, errno.EACCES, errno.EIO, errno.ENFILE, errno.ENOENT, errno.ELOOP]
WRITE_ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EROFS]
CLOSE_ERR = [errno.EIO, errno.ENOSPC, errno.EDQUOT]

_real = {}


class Inode:
    def __init__(self, data=b'', ino=0):
        self.data = bytearray(data)
        self.ino = ino
        self.unreadable = None      # errno for open, if any
        self.version = 0            # bumped by every modification


class Desc:
    """An open file description: what duplicated descriptors share."""
    __slots__ = ('inode', 'pos', 'append', 'r', 'w', 'path', 'refs')

    def __init__(self, inode, path, mode):
        self.inode, self.path = inode, path
        self.append = 'a' in mode
        self.pos = len(inode.data) if self.append else 0
        self.r = 'r' in mode or '+' in mode
        self.w = bool(set(mode) & set('wxa+'))
        self.refs = 1


class BareFd:
    """A descriptor from os.open() or os.dup(), in the table of handles until
    it is closed or wrapped by a file object."""
    unbuffered, gc, close_failed = True, False, False

    def __init__(self, fs, fd, desc):
        self.fs, self.fd, self.path = fs, fd, desc.path
        self.closed = False
        self.serial = len(fs.handles)
        fs.handles.append(self)

    def __repr__(self):
        return '<descriptor %d of %s%s>' % (self.fd, self.path, ' closed' if self.closed else '')


class SimFS:
    def __init__(self, world):
        self.world = world
        self.fds = {}               # descriptor -> Desc
        self.bare = {}              # descriptor -> BareFd
        self.files = {}
        self.dirs = {ROOT: None, '/sim/cwd': None, '/sim/tmp': None}
        self.bad_dirs = {}          # path -> errno on listing
        self.nextino = 100
        self.handles = []           # every raw file ever opened
        self.fdseq = 1000
        self.frozen = False         # after a crash nothing is durable any more
        self.hook = None            # called(what, raw) at unbuffered operations
        self.hook_all = False       # ... and at those of buffered files
        self.on_open = None         # called(path, mode) before an open happens
        self.on_created = None      # called(raw) after an unbuffered open
        self.on_stat = None         # called(path) before a stat
        self.on_read = None         # called(raw, position, size) before a read
        self.sabotage = None        # called(what, path) where files may change
        self.gc_closed = []
        self.stat_failed = []       # paths whose stat was made to fail
        self.tmpseq = 0
        self.sorted = False         # list directories in order

    # -- direct manipulation by the harness ---------------------------------
    def put(self, path, data):
        d = os.path.dirname(path)
        while d and d != '/' and d not in self.dirs:
            self.dirs[d] = None
            d = os.path.dirname(d)
        self.nextino += 1
        node = self.files[path] = Inode(data, self.nextino)
        return node

    def get(self, path):
        n = self.files.get(path)
        return None if n is None else bytes(n.data)

    def mkdir(self, path):
        while path and path != '/' and path not in self.dirs:
            self.dirs[path] = None
            path = os.path.dirname(path)

    def open_handles(self):
        return [h for h in self.handles if not h.closed]

    # -- paths ---------------------------------------------------------------
    def resolve(self, path):
        """The /sim path meant, or None if it is not ours."""
        if isinstance(path, int):
            return self.fds[path].path if path in self.fds else None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            if self.cwd is None:
                return None
            p = self.cwd + '/' + p
        p = os.path.normpath(p)
        if p == ROOT or p.startswith(ROOT + '/'):
            return p
        return None

    cwd = None

    # -- fault helper ----------------------------------------------------------
    def fault(self, kind, errnos, path):
        w = self.world
        if w.plans and w.due(kind):
            w.fired(kind)
            raise w.oserror(errnos, path)

    # -- os-level operations ---------------------------------------------------
    def stat(self, path, orig):
        self.world.log('stat', path)
        if self.on_stat:
            self.on_stat(path)
        try:
            self.fault('stat_error', [errno.EACCES, errno.EIO, errno.ELOOP], path)
        except OSError:
            self.stat_failed.append(path)
            raise
        n = self.files.get(path)
        if n is not None:
            return self.stat_of(n)
        if path in self.dirs:
            return os.stat_result((stat_mod.S_IFDIR | 0o755, abs(hash_path(path)), 99, 2, 0, 0,
                                   0, 0, 0, 0))
        parent = os.path.dirname(path)
        if parent in self.files:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), orig)
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)

    def listdir(self, path, orig):
        self.world.log('listdir', path)
        self.fault('list_error', [errno.EACCES, errno.EIO], path)
        if path in self.bad_dirs:
            e = self.bad_dirs[path]
            raise OSError(e, os.strerror(e), orig)
        if path not in self.dirs:
            if path in self.files:
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), orig)
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)
        pre = path + '/'
        names = [p[len(pre):] for p in list(self.files) + list(self.dirs)
                 if p.startswith(pre) and '/' not in p[len(pre):]]
        # the order is unspecified: let the simulator choose it
        return sorted(names) if self.sorted else self.world.ch.shuffle(sorted(names))

    def open_raw(self, path, mode, orig, unbuffered):
        w = self.world
        w.log('open', path, mode)
        if self.hook and unbuffered:
            self.hook('open', None)
        if self.on_open:
            self.on_open(path, mode)
        creating = 'x' in mode or 'w' in mode or 'a' in mode
        self.fault('open_error', OPEN_ERR if not creating else
                   [errno.EMFILE, errno.EACCES, errno.EIO, errno.ENOSPC, errno.EROFS], path)
        if path in self.dirs:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), orig)
        node = self.files.get(path)
        if node is not None and node.unreadable:
            raise OSError(node.unreadable, os.strerror(node.unreadable), orig)
        if 'x' in mode and node is not None:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), orig)
        if node is None:
            if not creating:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)
            if os.path.dirname(path) not in self.dirs:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)
            if self.frozen:
                raise SimCrash()
            self.nextino += 1
            node = self.files[path] = Inode(b'', self.nextino)
            node.version = 1
        elif 'w' in mode and not self.frozen:
            if node.data:
                del node.data[:]
            node.version += 1
        if self.hook and unbuffered:
            self.hook('opened', None)
        return node

    # -- descriptors -----------------------------------------------------------
    def new_fd(self, desc):
        fd = self.fdseq
        self.fdseq += 1
        self.fds[fd] = desc
        return fd

    def os_open(self, path, flags, orig):
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        if flags & os.O_CREAT and flags & os.O_EXCL:
            mode = 'x'
        elif flags & os.O_CREAT and flags & os.O_TRUNC:
            mode = 'w'
        elif flags & os.O_APPEND:
            mode = 'a'
        elif flags & os.O_CREAT and path not in self.files:
            mode = 'w'
        else:
            mode = 'r'
        node = self.open_raw(path, mode + ('+' if acc == os.O_RDWR else ''), orig, True)
        if flags & os.O_TRUNC and acc and not self.frozen:
            del node.data[:]
            node.version += 1
        d = Desc(node, path, mode)
        d.r = acc != os.O_WRONLY
        d.w = acc != os.O_RDONLY
        fd = self.new_fd(d)
        self.bare[fd] = BareFd(self, fd, d)
        return fd

    def os_dup(self, fd):
        d = self.desc(fd)
        d.refs += 1
        new = self.new_fd(d)
        self.bare[new] = BareFd(self, new, d)
        return new

    def desc(self, fd):
        if fd not in self.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return self.fds[fd]

    def os_close(self, fd):
        self.desc(fd).refs -= 1
        del self.fds[fd]
        b = self.bare.pop(fd, None)
        if b is not None:
            b.closed = True
            self.fault('fclose_error', CLOSE_ERR, b.path)

    def os_read(self, fd, n, pos=None):
        d = self.desc(fd)
        if not d.r:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        self.fault('fread_error', READ_ERR, d.path)
        at = d.pos if pos is None else pos
        out = bytes(d.inode.data[at:at + n])
        if pos is None:
            d.pos += len(out)
        return out

    def os_write(self, fd, data, pos=None):
        d = self.desc(fd)
        if not d.w:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        self.fault('fwrite_error', WRITE_ERR, d.path)
        data = bytes(data)
        at = d.pos if pos is None else pos
        if d.append:
            at = len(d.inode.data)
        self.store(d.inode, at, data)
        if pos is None:
            d.pos = at + len(data)
        return len(data)

    def store(self, inode, at, data):
        if self.frozen or not data:
            return
        d = inode.data
        if at > len(d):
            d.extend(bytes(at - len(d)))
        d[at:at + len(data)] = data
        inode.version += 1

    def os_lseek(self, fd, pos, whence):
        d = self.desc(fd)
        self.fault('fseek_error', [errno.EIO, errno.EINVAL], d.path)
        pos += {0: 0, 1: d.pos, 2: len(d.inode.data)}[whence]
        if pos < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        d.pos = pos
        return pos

    def fstat(self, fd):
        d = self.desc(fd)
        self.fault('stat_error', [errno.EIO], d.path)
        return self.stat_of(d.inode)

    @staticmethod
    def stat_of(n):
        return os.stat_result((stat_mod.S_IFREG | 0o644, n.ino, 99, 1, 0, 0, len(n.data), 0, 0, 0))

    def rename(self, src, dst):
        if src not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), src)
        self.fault('rename_error', [errno.EIO, errno.EACCES], dst)
        self.files[dst] = self.files.pop(src)

    def unlink(self, path):
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        del self.files[path]

    # -- installation ----------------------------------------------------------
    def install(self, cwd=None):
        """Route the OS boundary here.  Done once, in a run's own process."""
        fs = self
        self.cwd = cwd
        real = _real
        for mod, name in ((os, 'stat'), (os, 'lstat'), (os, 'listdir'), (os, 'scandir'),
                          (os, 'getcwd'), (os, 'rename'), (os, 'replace'), (os, 'unlink'),
                          (os, 'remove'), (os, 'readlink'), (os, 'mkdir'), (os, 'access'),
                          (io, 'open'), (io, 'FileIO'), (os, 'link'), (os, 'fstat'), (os, 'dup'),
                          (os, 'open'), (os, 'close'), (os, 'read'), (os, 'write'),
                          (os, 'pread'), (os, 'pwrite'), (os, 'lseek'), (os, 'fsync'),
                          (os, 'fdatasync'), (os, 'ftruncate'), (os, 'truncate'), (os, 'isatty'),
                          (os, 'chmod'), (os, 'fchmod'), (os, 'utime'), (os, 'rmdir'),
                          (os, 'sendfile'), (os, 'copy_file_range')):
            real[mod.__name__ + '.' + name] = getattr(mod, name)

        def sim_stat(path, *a, **k):
            if isinstance(path, int) and path in fs.fds:
                return fs.fstat(path)
            p = fs.resolve(path)
            return real['os.stat'](path, *a, **k) if p is None else fs.stat(p, path)

        def sim_lstat(path, *a, **k):
            p = fs.resolve(path)
            return real['os.lstat'](path, *a, **k) if p is None else fs.stat(p, path)

        def sim_listdir(path='.'):
            p = fs.resolve(path)
            return real['os.listdir'](path) if p is None else fs.listdir(p, path)

        def sim_scandir(path='.'):
            p = fs.resolve(path)
            if p is None:
                return real['os.scandir'](path)
            return ScanIter(fs, path, p, fs.listdir(p, path))

        def sim_getcwd():
            return fs.cwd if fs.cwd is not None else real['os.getcwd']()

        def two(name):
            def f(src, dst, *a, **k):
                p, q = fs.resolve(src), fs.resolve(dst)
                if p is None and q is None:
                    return real['os.' + name](src, dst, *a, **k)
                return fs.rename(p, q)
            return f

        def one(name):
            def f(path, *a, **k):
                p = fs.resolve(path)
                if p is None:
                    return real['os.' + name](path, *a, **k)
                return fs.unlink(p)
            return f

        def sim_readlink(path, *a, **k):
            p = fs.resolve(path)
            if p is None:
                return real['os.readlink'](path, *a, **k)
            raise OSError(errno.EINVAL, 'Invalid argument', path)

        def sim_mkdir(path, *a, **k):
            p = fs.resolve(path)
            if p is None:
                return real['os.mkdir'](path, *a, **k)
            fs.mkdir(p)

        def sim_access(path, mode, *a, **k):
            p = fs.resolve(path)
            if p is None:
                return real['os.access'](path, mode, *a, **k)
            return p in fs.files or p in fs.dirs

        def sim_link(src, dst, *a, **k):
            p, q = fs.resolve(src), fs.resolve(dst)
            if p is None and q is None:
                return real['os.link'](src, dst, *a, **k)
            if q in fs.files:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), dst)
            fs.files[q] = fs.files[p]

        def on_fd(name, func):
            def f(fd, *a, **k):
                return func(fd, *a, **k) if fd in fs.fds else real['os.' + name](fd, *a, **k)
            return f

        def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
            p = fs.resolve(path)
            if p is None:
                return real['os.open'](path, flags, mode, dir_fd=dir_fd)
            return fs.os_open(p, flags, path)

        def sim_ftruncate(fd, size):
            raw = fs.desc(fd)
            if not raw.w:
                raise OSError(errno.EINVAL, 'Invalid argument')
            truncate(raw.inode, size)

        def sim_truncate(path, size):
            p = fs.resolve(path)
            if p is None:
                return real['os.truncate'](path, size)
            if p not in fs.files:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            truncate(fs.files[p], size)

        def truncate(inode, size):
            if not fs.frozen:
                d = inode.data
                if size < len(d):
                    del d[size:]
                else:
                    d.extend(bytes(size - len(d)))
                inode.version += 1

        def attrs(name):
            def f(path, *a, **k):
                p = fs.resolve(path)
                if p is None:
                    return real['os.' + name](path, *a, **k)
                if p not in fs.files and p not in fs.dirs:
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            return f

        def sim_rmdir(path, *a, **k):
            p = fs.resolve(path)
            if p is None:
                return real['os.rmdir'](path, *a, **k)
            if any(f.startswith(p + '/') for f in list(fs.files) + list(fs.dirs)):
                raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), path)
            fs.dirs.pop(p)

        def not_supported(name):
            def f(a, b, *args, **k):
                if a in fs.fds or b in fs.fds:
                    raise OSError(errno.ENOTSOCK, os.strerror(errno.ENOTSOCK))
                return real['os.' + name](a, b, *args, **k)
            return f

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            p = fs.resolve(file)
            if p is None:
                return real['io.open'](file, mode, buffering, encoding, errors, newline,
                                       closefd, opener)
            if not isinstance(mode, str):
                raise TypeError('open() argument 2 must be str')
            if (not set(mode) <= set('rwxabt+') or len(set(mode) & set('rwxa')) != 1
                    or len(mode) != len(set(mode)) or ('t' in mode and 'b' in mode)):
                raise ValueError('invalid mode: %r' % mode)
            text = 'b' not in mode
            if text and buffering == 0:
                raise ValueError("can't have unbuffered text I/O")
            rawmode = mode.replace('t', '').replace('b', '')
            if opener is not None:
                flags = {'r': os.O_RDONLY, 'w': os.O_CREAT | os.O_TRUNC, 'a': os.O_CREAT | os.O_APPEND,
                         'x': os.O_CREAT | os.O_EXCL}[rawmode.strip('+')]
                flags |= os.O_RDWR if '+' in rawmode else os.O_WRONLY if flags else 0
                fd = opener(file, flags | os.O_CLOEXEC)
                raw = SimFileIO(fd, rawmode, _fs=fs, _unbuffered=buffering == 0)
                raw.name = file
            else:
                raw = SimFileIO(file, rawmode, closefd, _fs=fs, _unbuffered=buffering == 0)
            try:
                if buffering == 0:
                    return raw
                size = 8192 if buffering in (-1, 1) else buffering
                if '+' in rawmode:
                    buf = io.BufferedRandom(raw, size)
                elif rawmode[0] in 'wxa':
                    buf = io.BufferedWriter(raw, size)
                else:
                    buf = io.BufferedReader(raw, size)
                if not text:
                    return buf
                t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                                     line_buffering=buffering == 1)
                t.mode = mode
                return t
            except BaseException:
                raw.close()
                raise

        subst = {
            'os.stat': sim_stat, 'os.lstat': sim_lstat, 'os.listdir': sim_listdir,
            'os.scandir': sim_scandir, 'os.getcwd': sim_getcwd, 'os.rename': two('rename'),
            'os.replace': two('replace'), 'os.unlink': one('unlink'), 'os.remove': one('remove'),
            'os.readlink': sim_readlink, 'os.mkdir': sim_mkdir, 'os.access': sim_access,
            'os.fstat': on_fd('fstat', fs.fstat), 'os.dup': on_fd('dup', fs.os_dup),
            'os.open': sim_os_open, 'os.close': on_fd('close', fs.os_close),
            'os.read': on_fd('read', fs.os_read), 'os.write': on_fd('write', fs.os_write),
            'os.pread': on_fd('pread', fs.os_read), 'os.pwrite': on_fd('pwrite', fs.os_write),
            'os.lseek': on_fd('lseek', fs.os_lseek),
            'os.fsync': on_fd('fsync', lambda fd: fs.fault('fwrite_error', WRITE_ERR,
                                                           fs.desc(fd).path)),
            'os.fdatasync': on_fd('fdatasync', lambda fd: None),
            'os.ftruncate': on_fd('ftruncate', sim_ftruncate), 'os.truncate': sim_truncate,
            'os.isatty': on_fd('isatty', lambda fd: False),
            'os.chmod': attrs('chmod'), 'os.utime': attrs('utime'), 'os.rmdir': sim_rmdir,
            'os.fchmod': on_fd('fchmod', lambda fd, mode: None),
            'os.sendfile': not_supported('sendfile'),
            'os.copy_file_range': not_supported('copy_file_range'),
            'os.link': sim_link, 'io.open': sim_open, 'io.FileIO': SimFileIO,
        }
        SimFileIO.FS = fs
        for k, v in subst.items():
            modname, name = k.split('.')
            setattr(sys.modules[modname], name, v)
        builtins.open = sim_open
        # anything the library captured by name
        swap = {id(real[k]): v for k, v in subst.items()}
        for name, mod in list(sys.modules.items()):
            if name == 'ebmlite' or name.startswith('ebmlite.'):
                for attr, val in list(vars(mod).items()):
                    if id(val) in swap:
                        setattr(mod, attr, swap[id(val)])
        import tempfile
        tempfile.tempdir = '/sim/tmp'
        tempfile._name_sequence = TempNames(fs)
        tempfile._get_candidate_names = lambda: tempfile._name_sequence
        return self


class TempNames:
    def __init__(self, fs):
        self.fs = fs

    def __iter__(self):
        return self

    def __next__(self):
        # every name comes up twice: a name is free only once it was created
        self.fs.tmpseq += 1
        return 'simtmp%d' % ((self.fs.tmpseq + 1) // 2)


def hash_path(p):
    h = 7
    for c in p:
        h = (h * 31 + ord(c)) & 0xffffffff
    return h


class ScanIter:
    def __init__(self, fs, orig, path, names):
        self.it = iter([Entry(fs, orig, path, n) for n in names])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Entry:
    def __init__(self, fs, orig, path, name):
        self._fs, self._p, self.name = fs, path + '/' + name, name
        self.path = os.path.join(os.fspath(orig), name)

    def is_dir(self, follow_symlinks=True):
        return self._p in self._fs.dirs

    def is_file(self, follow_symlinks=True):
        return self._p in self._fs.files

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self._fs.stat(self._p, self.path)

    def inode(self):
        return hash_path(self._p)

    def __fspath__(self):
        return self.path


class SimFileIO(io.RawIOBase):
    """Stand-in for io.FileIO on simulated paths."""
    FS = None

    def __new__(cls, file, mode='r', closefd=True, opener=None, _fs=None, _unbuffered=True):
        fs = _fs or cls.FS
        if fs is None or fs.resolve(file) is None:
            return _real['io.FileIO'](file, mode, closefd, opener)
        return super().__new__(cls)

    def __init__(self, file, mode='r', closefd=True, opener=None, _fs=None, _unbuffered=True):
        self._ok = False
        fs = self.fs = _fs or self.FS
        if not isinstance(mode, str):
            raise TypeError('FileIO() argument 2 must be str')
        if (not set(mode) <= set('rwxab+') or len(set(mode) & set('rwxa')) != 1):
            raise ValueError('invalid mode: %s' % mode)
        if not closefd and not isinstance(file, int):
            raise ValueError('Cannot use closefd=False with file name')
        self.path = fs.resolve(file)
        self.closefd = closefd
        self.name = file
        self.unbuffered = _unbuffered
        self._r = 'r' in mode or '+' in mode
        self._w = bool(set(mode) & set('wxa+'))
        self.mode = mode.replace('b', '').rstrip('+')[0] + 'b' + ('+' if '+' in mode else '')
        if self.mode.startswith('r') and '+' in mode:
            self.mode = 'rb+'
        if isinstance(file, int):
            self.desc = fs.desc(file)
            self._fd = file
            if closefd:
                b = fs.bare.pop(file, None)
                if b is not None:
                    b.closed = True      # (this object is its handle now)
            else:
                self.desc.refs += 1
        else:
            self.desc = Desc(fs.open_raw(self.path, mode, file, _unbuffered), self.path, mode)
            self._fd = fs.new_fd(self.desc)
        self.inode = self.desc.inode
        self.gc = False
        self.ops = 0
        self._ok = True
        self.serial = len(fs.handles)
        fs.handles.append(self)
        if fs.on_created and _unbuffered:
            fs.on_created(self)

    close_failed = False

    @property
    def _pos(self):
        return self.desc.pos

    @_pos.setter
    def _pos(self, pos):
        self.desc.pos = pos

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if self._fd not in self.fs.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))

    def _yield(self, what):
        fs = self.fs
        if fs.hook and (self.unbuffered or fs.hook_all) and not self.gc:
            fs.hook(what, self)

    def _interrupt(self, what):
        w = self.fs.world
        if w.plans and w.due('fs_interrupt'):
            w.fired('fs_interrupt')
            raise Interrupt('injected during ' + what)

    def readable(self):
        self._check()
        return self._r

    def writable(self):
        self._check()
        return self._w

    def seekable(self):
        self._check()
        return True

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        self._check()
        return False

    def _take(self, n):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation('File not open for reading')
        self._yield('read')
        self._check()
        self.ops += 1
        fs = self.fs
        fs.fault('fread_error', READ_ERR, self.path)
        self._interrupt('read')
        if fs.sabotage:
            fs.sabotage('read', self.path)
        d = self.inode.data
        if fs.on_read:
            most = max(0, len(d) - self._pos)
            fs.on_read(self, self._pos, most if n is None or n < 0 else min(n, most))
        out = bytes(d[self._pos:] if n is None or n < 0 else d[self._pos:self._pos + n])
        self._pos += len(out)
        fs.world.log('fread', self.serial, n, len(out))
        self._yield('readdone')
        return out

    def readinto(self, b):
        out = self._take(len(b))
        b[:len(out)] = out
        return len(out)

    def read(self, size=-1):
        return self._take(size)

    def readall(self):
        return self._take(-1)

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation('File not open for writing')
        self._yield('write')
        fs, w = self.fs, self.fs.world
        data = bytes(b)
        w.log('fwrite', self.serial, self._pos, len(data))
        fs.fault('fwrite_error', WRITE_ERR, self.path)
        self._interrupt('write')
        if w.plans and w.due('fwrite_partial'):
            w.fired('fwrite_partial')
            self._put(data[:w.ch.below(len(data) + 1)])
            raise w.oserror(WRITE_ERR, self.path)
        if w.plans and not self.unbuffered and len(data) > 1 and w.due('fwrite_short'):
            # (a short count, as the system call may return; buffers go on)
            w.fired('fwrite_short')
            k = 1 + w.ch.below(len(data) - 1)
            self._put(data[:k])
            return k
        if w.plans and w.due('crash'):
            w.fired('crash')
            self._put(data[:w.ch.below(len(data) + 1)])
            fs.frozen = True
            raise SimCrash()
        self._put(data)
        return len(data)

    def _put(self, data):
        if self.fs.frozen or not data:
            return
        if self.desc.append:
            self._pos = len(self.inode.data)
        self.fs.store(self.inode, self._pos, data)
        self._pos += len(data)

    def seek(self, pos, whence=0):
        self._check()
        if isinstance(pos, float):
            raise TypeError('an integer is required')
        self._yield('seek')
        self._check()
        self.fs.fault('fseek_error', [errno.EIO, errno.EINVAL], self.path)
        self._interrupt('seek')
        if whence == 1:
            pos += self._pos
        elif whence == 2:
            pos += len(self.inode.data)
        elif whence != 0:
            raise ValueError('invalid whence (%r, should be 0, 1 or 2)' % whence)
        if pos > 0x7fffffffffffffff:
            raise OverflowError('cannot fit int into an offset-sized integer')
        if pos < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self._pos = pos
        self.fs.world.log('fseek', self.serial, pos)
        return pos

    def tell(self):
        self._check()
        self._yield('tell')
        self._check()
        self.fs.fault('ftell_error', [errno.EIO, errno.ESTALE], self.path)
        return self._pos

    def truncate(self, size=None):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation('File not open for writing')
        size = self._pos if size is None else size
        if not self.fs.frozen:
            d = self.inode.data
            if size < len(d):
                del d[size:]
            else:
                d.extend(bytes(size - len(d)))
            self.inode.version += 1
        return size

    def _dealloc_warn(self, source):
        self.gc = True
        self.fs.gc_closed.append(self)

    def close(self):
        if self.closed:
            return
        if not self._ok:
            super().close()
            return
        self._yield('close')
        if self.closed:
            return
        self.fs.world.log('fclose', self.serial, 'gc' if self.gc else '')
        super().close()
        bad = self._fd not in self.fs.fds
        if not bad and (self.closefd or isinstance(self.name, str)):
            self.fs.fds.pop(self._fd).refs -= 1
        self._yield('closed')
        if bad and not self.gc:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if not self.gc:
            try:
                self.fs.fault('fclose_error', CLOSE_ERR, self.path)
            except OSError:
                self.close_failed = True
                raise

    def __del__(self):
        if getattr(self, '_ok', False) and not self.closed:
            self.gc = True
            self.fs.gc_closed.append(self)
            try:
                self.close()
            except BaseException:
                pass

    def __repr__(self):
        return '<SimFileIO %s %s%s>' % (self.path, self.mode, ' closed' if self.closed else '')
