"""Simulated storage: every Python-level file operation below `root` goes through here.

The bytes live in real files of a scratch directory; what is simulated is *when* they get there, which
operations fail, and what survives a crash:
  - user-space buffering: bytes written but not flushed are lost when the job is killed,
  - kill: everything handed to the operating system survives,
  - power: file contents not fsync'ed may be lost or torn, directory operations (create, rename, unlink)
    survive as a prefix of the order in which they were made.
A fault plan is a list of {"op","nth","kind"}; the nth operation of that type under `root` gets the fault.
"""

import builtins
import errno
import io
import os
import random
import sqlite3
import stat

import simmpi

_real = {
    "open": builtins.open,
    "ioopen": io.open,
    "replace": os.replace,
    "rename": os.rename,
    "remove": os.remove,
    "unlink": os.unlink,
    "fsync": os.fsync,
    "fdatasync": os.fdatasync,
    "makedirs": os.makedirs,
    "mkdir": os.mkdir,
    "osopen": os.open,
    "oswrite": os.write,
    "osclose": os.close,
    "link": os.link,
    "connect": sqlite3.connect,
}

ERRS = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "edquot": errno.EDQUOT}


class Disk:
    def __init__(self, root, faults=(), seed=0, bufsize=8192):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.rng = random.Random(seed)
        self.counts = {}
        self.fired = []
        self.durable = {}  # path -> bytes (contents at last fsync); missing => durable before this incarnation
        self.dirty = set()  # paths with contents written since the last fsync
        self.meta = []  # journal of directory operations, newest last: (kind, ...) for undo
        self.fds = {}
        self.conns = []
        self.sqlver = 0  # changes whenever the locks on a database may have changed
        self.world = None
        self.crashed = None
        self.bufsize = bufsize
        self.writers = {}  # path -> set of global ranks that wrote to it
        self.log = []
        self.enabled = True

    # ------------------------------------------------------------------ helpers
    def mine(self, path):
        if not self.enabled or simmpi.current() is None:
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            return None
        p = os.path.realpath(p)
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def op(self, kind, path):
        """Account for one operation; returns the fault kind to apply, if any."""
        n = self.counts.get(kind, 0) + 1
        self.counts[kind] = n
        ctx = simmpi.current()
        self.world.yield_(f"disk:{kind}:{os.path.basename(path)}")
        self.log.append((ctx.rank, kind, os.path.relpath(path, self.root)))
        for f in self.faults:
            if f["op"] == kind and f["nth"] == n and (not f.get("match") or f["match"] in os.path.basename(path)):
                self.fired.append({**f, "path": os.path.relpath(path, self.root), "rank": ctx.rank,
                                   "printed": "".join(self.world.ranks[0].out).count("Step ")})
                self.world.count(f"disk_{f['op']}_{f['kind']}")
                return f
        # persistent conditions: from the nth op on
        for f in self.faults:
            if f.get("sticky") and f["op"] == kind and n > f["nth"] and f["kind"] in ERRS:
                self.world.count(f"disk_{f['op']}_{f['kind']}")
                return f
        return None

    def raise_if(self, f, path):
        if f is None:
            return
        k = f["kind"]
        if k in ERRS:
            raise OSError(ERRS[k], os.strerror(ERRS[k]), path)
        if k in ("kill", "power"):
            self.crash(k)

    def crash(self, kind):
        self.crashed = kind
        self.world.count("crash_" + kind)
        self.world.finish("crashed", kind)
        raise simmpi.SimAbort

    def apply_crash(self, kind, seed):
        """Called after the world has ended by a crash: make the scratch directory look as after a reboot."""
        if kind != "power":
            return
        rng = random.Random(seed)
        # directory operations: a prefix survives (mostly all of them)
        keep = len(self.meta)
        if rng.random() < 0.5 and self.meta:
            keep = rng.randrange(len(self.meta) + 1)
        for rec in reversed(self.meta[keep:]):
            if rec[0] == "create":
                if os.path.exists(rec[1]):
                    _real["remove"](rec[1])
                self.dirty.discard(rec[1])
            elif rec[0] == "replace":
                _, src, dst, old, ddirty = rec
                if os.path.exists(dst):
                    _real["replace"](dst, src)
                    if dst in self.dirty:
                        self.dirty.discard(dst)
                        self.dirty.add(src)
                    if dst in self.durable:
                        self.durable[src] = self.durable.pop(dst)
                if old is not None:
                    with _real["open"](dst, "wb") as fh:
                        fh.write(old)
                    if ddirty is not None:
                        self.dirty.add(dst)
                        self.durable[dst] = ddirty
            elif rec[0] == "remove":
                with _real["open"](rec[1], "wb") as fh:
                    fh.write(rec[2])
        for p in sorted(self.dirty):
            if not os.path.exists(p):
                continue
            with _real["open"](p, "rb") as fh:
                cur = fh.read()
            old = self.durable.get(p, b"")
            how = rng.randrange(4)
            if how == 0:
                new = old
            elif how == 1:
                new = cur[: rng.randrange(len(cur) + 1)]
            elif how == 2:
                k = rng.randrange(len(cur) + 1)
                new = cur[:k] + b"\0" * (len(cur) - k)
            else:
                new = cur
            with _real["open"](p, "wb") as fh:
                fh.write(new)

    def note_sync(self, path):
        self.dirty.discard(path)
        try:
            with _real["open"](path, "rb") as fh:
                self.durable[path] = fh.read()
        except OSError:
            pass

    def pre_write(self, path):
        """Remember what is durable before the first unsynced modification."""
        if path not in self.dirty and path not in self.durable:
            try:
                with _real["open"](path, "rb") as fh:
                    self.durable[path] = fh.read()
            except OSError:
                self.durable[path] = b""

    # ------------------------------------------------------------------ patched functions
    def install(self, world):
        self.world = world
        d = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) and file in d.fds and ctx_ok():
                if any(c in mode for c in "wax+"):
                    return SimFile(d, d.fds[file], mode, fd=file, encoding=encoding)
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            p = d.mine(file) if not isinstance(file, int) else None
            if p is None or opener is not None:
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if any(c in mode for c in "wax+"):
                return SimFile(d, p, mode, encoding=encoding)
            d.raise_if(d.op("open_r", p), p)
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)

        def ctx_ok():
            return d.enabled and simmpi.current() is not None

        def sim_replace(src, dst, **kw):
            p, q = d.mine(src), d.mine(dst)
            if p is None or q is None:
                return _real["replace"](src, dst, **kw)
            d.raise_if(d.op("replace", q), q)
            old = None
            if os.path.exists(q):
                with _real["open"](q, "rb") as fh:
                    old = fh.read()
            qdirty = d.durable.get(q) if q in d.dirty else None
            _real["replace"](p, q)
            d.meta.append(("replace", p, q, old, qdirty))
            d.dirty.discard(q)
            d.durable.pop(q, None)
            if p in d.dirty:
                d.dirty.discard(p)
                d.dirty.add(q)
            if p in d.durable:
                d.durable[q] = d.durable.pop(p)
            ctx = simmpi.current()
            d.writers.setdefault(q, set()).add(ctx.rank)
            after = d.op("post_replace", q)
            d.raise_if(after, q)

        def sim_remove(path, **kw):
            p = d.mine(path)
            if p is None:
                return _real["remove"](path, **kw)
            d.raise_if(d.op("remove", p), p)
            data = None
            if os.path.isfile(p):
                with _real["open"](p, "rb") as fh:
                    data = fh.read()
            _real["remove"](p)
            if data is not None:
                d.meta.append(("remove", p, data))
            d.dirty.discard(p)

        def sim_fsync(fd):
            if hasattr(fd, "fileno"):
                fd = fd.fileno()
            if ctx_ok() and fd in d.fds:
                p = d.fds[fd]
                d.raise_if(d.op("fsync", p), p)
                if os.path.isdir(p):
                    d.meta.clear()
                    return None
                _real["fsync"](fd)
                d.note_sync(p)
                return None
            return _real["fsync"](fd)

        def sim_makedirs(name, mode=0o777, exist_ok=False):
            p = d.mine(name)
            if p is not None:
                d.raise_if(d.op("mkdir", p), p)
            d._in_makedirs = True
            try:
                return _real["makedirs"](name, mode, exist_ok)
            finally:
                d._in_makedirs = False

        def sim_mkdir(name, *a, **k):
            p = d.mine(name)
            if p is not None and not getattr(d, "_in_makedirs", False):
                d.raise_if(d.op("mkdir", p), p)
            return _real["mkdir"](name, *a, **k)

        def sim_os_open(path, flags, mode=0o777, **kw):
            p = d.mine(path) if not kw else None
            if p is None:
                return _real["osopen"](path, flags, mode, **kw)
            wr = flags & (os.O_WRONLY | os.O_RDWR)
            if wr:
                d.raise_if(d.op("open", p), p)
                d.pre_write(p)
                if not os.path.exists(p):
                    d.meta.append(("create", p))
                d.dirty.add(p)
            fd = _real["osopen"](path, flags, mode)
            d.fds[fd] = p
            return fd

        def sim_os_write(fd, data):
            if ctx_ok() and fd in d.fds:
                return raw_write(d, fd, d.fds[fd], bytes(data))
            return _real["oswrite"](fd, data)

        def sim_os_close(fd):
            d.fds.pop(fd, None)
            return _real["osclose"](fd)

        def sim_connect(database, *a, **k):
            p = d.mine(database)
            if p is None:
                return _real["connect"](database, *a, **k)
            d.sql("connect", p)
            k.setdefault("check_same_thread", False)
            wait = a[0] if a else k.pop("timeout", 5.0)
            real = _real["connect"](database, 0.0, *a[1:], **k)
            c = SimConnection(d, real, p, wait)
            d.conns.append(c)
            return c

        builtins.open = sim_open
        io.open = sim_open
        os.replace = sim_replace
        os.rename = sim_replace
        os.remove = sim_remove
        os.unlink = sim_remove
        os.fsync = sim_fsync
        os.fdatasync = sim_fsync
        os.makedirs = sim_makedirs
        os.mkdir = sim_mkdir
        os.open = sim_os_open
        os.write = sim_os_write
        os.close = sim_os_close
        sqlite3.connect = sim_connect
        install_netcdf(d)

    def nc(self, path, creating=False):
        f = self.op("nc", path)
        if f is None:
            return
        k = f["kind"]
        if k in ("kill", "power"):
            self.crash("kill")
        if creating:
            raise OSError(ERRS.get(k, errno.EIO), os.strerror(ERRS.get(k, errno.EIO)), path)
        raise RuntimeError("NetCDF: HDF error")

    def sql_reap(self, conn):
        """Processes that are gone hold no locks."""
        ranks = simmpi.current().world.ranks
        gone = [c for c in self.conns if c is not conn and ranks[c._rank].state == "done"]
        for c in gone:
            c._r.close()
            self.conns.remove(c)
        return bool(gone)

    def sql_run(self, conn, fn, statement=None):
        """One statement; the locks are SQLite's own, the waiting for them (its busy handler) is the scheduler's.
        As in SQLite, a transaction that has begun to read does not wait to be allowed to write."""
        world = simmpi.current().world
        while True:
            try:
                r = fn()
            except sqlite3.OperationalError as e:
                if "locked" not in str(e) or conn._wait == 0 or (statement is not None and conn._shared):
                    raise
                seen = self.sqlver
                world.count("sql_lock_wait")
                world.block(lambda: self.sqlver != seen or any(c is not conn and world.ranks[c._rank].state == "done" for c in self.conns), "sql lock")
                self.sql_reap(conn)
                continue
            self.sqlver += 1
            conn.__dict__["_shared"] = conn._r.in_transaction and (conn._shared or (statement is not None and not is_begin(statement)))
            return r

    def sql(self, what, path, conn=None):
        f = self.op("sql", path)
        if f is None:
            self.sql_reap(conn)
            return
        k = f["kind"]
        if k in ("kill", "power"):
            self.crash("kill")
        if k == "corrupt":
            raise sqlite3.DatabaseError("file is not a database")
        if k in ERRS or k == "full":
            raise sqlite3.OperationalError("database or disk is full")
        if k == "locked":
            raise sqlite3.OperationalError("database is locked")
        if k == "ioerr":
            raise sqlite3.OperationalError("disk I/O error")


def is_begin(sql):
    w = sql.split(None, 2)
    return w[0].lower() == "begin" and not (len(w) > 1 and w[1].lower().rstrip(";") in ("immediate", "exclusive"))


def raw_write(d, fd, path, data):
    """One write(2): may fail, be short then fail, or be interrupted by a crash part-way."""
    f = d.op("write", path)
    d.dirty.add(path)
    d.writers.setdefault(path, set()).add(simmpi.current().rank)
    if f is not None:
        k = f["kind"]
        cut = int(len(data) * f.get("cut", 0.5))
        if k in ("kill", "power"):
            _real["oswrite"](fd, data[:cut])
            d.crash(k)
        if k in ERRS:
            if f.get("short", True) and cut:
                _real["oswrite"](fd, data[:cut])
            raise OSError(ERRS[k], os.strerror(ERRS[k]), path)
    n = 0
    while n < len(data):
        n += _real["oswrite"](fd, data[n:])
    return n


class SimFile:
    """Writable file with user-space buffering under the simulator's control."""

    def __init__(self, disk, path, mode, fd=None, encoding=None):
        d = self._d = disk
        self.name = path
        self.mode = mode
        self._path = path
        self._text = "b" not in mode
        self._enc = encoding or "utf-8"
        self._buf = bytearray()
        self.closed = False
        if fd is None:
            d.raise_if(d.op("open", path), path)
            d.pre_write(path)
            existed = os.path.exists(path)
            flags = os.O_RDWR | os.O_CREAT
            if "w" in mode:
                flags |= os.O_TRUNC
            if "x" in mode:
                flags |= os.O_EXCL
            if "a" in mode:
                flags |= os.O_APPEND
            if "r" in mode:
                flags = os.O_RDWR
            fd = _real["osopen"](path, flags, 0o666)
            if not existed:
                d.meta.append(("create", path))
            if not existed or "w" in mode:
                d.dirty.add(path)
        self._fd = fd
        d.fds[fd] = path

    def fileno(self):
        return self._fd

    def writable(self):
        return True

    def readable(self):
        return "+" in self.mode or "r" in self.mode

    def seekable(self):
        return True

    def isatty(self):
        return False

    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self._text:
            data = data.encode(self._enc)
        b = bytes(data)
        self._buf += b
        if len(self._buf) >= self._d.bufsize:
            self.flush()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self._buf:
            data, self._buf = bytes(self._buf), bytearray()
            raw_write(self._d, self._fd, self._path, data)

    def read(self, n=-1):
        self.flush()
        out = b""
        while n < 0 or len(out) < n:
            c = os.read(self._fd, 1 << 16 if n < 0 else n - len(out))
            if not c:
                break
            out += c
        return out.decode(self._enc) if self._text else out

    def seek(self, off, whence=0):
        self.flush()
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1) + len(self._buf)

    def truncate(self, size=None):
        self.flush()
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        self._d.dirty.add(self._path)
        return size

    def close(self):
        if self.closed:
            return
        try:
            if self._d.world.end is None:
                self.flush()
                self._d.raise_if(self._d.op("close", self._path), self._path)
        finally:
            self.closed = True
            self._d.fds.pop(self._fd, None)
            _real["osclose"](self._fd)

    def __del__(self):
        # never closed: like the real ones, flushed at the end of its life, and errors go nowhere
        if getattr(self, "closed", True) or not hasattr(self, "_fd"):
            return
        try:
            if simmpi.current() is None:
                self._buf = bytearray()
                self.closed = True
                self._d.fds.pop(self._fd, None)
                _real["osclose"](self._fd)
            else:
                self.close()
        except BaseException:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def readline(self):
        out = b""
        while True:
            c = os.read(self._fd, 1)
            if not c:
                break
            out += c
            if c == b"\n":
                break
        return out.decode(self._enc) if self._text else out

    def readlines(self):
        return list(self)


def install_netcdf(d):
    """Every creation, definition, write and close of a netCDF file under the root is an operation that can fail."""
    import netCDF4

    real = netCDF4.Dataset
    if getattr(real, "_vsim", False):
        return

    def dataset(filename, mode="r", *a, **k):
        p = d.mine(filename)
        if p is None or mode == "r":
            return real(filename, mode, *a, **k)
        d.nc(p, creating=True)
        d.writers.setdefault(p, set()).add(simmpi.current().rank)
        return SimDataset(d, real(filename, mode, *a, **k), p)

    dataset._vsim = True
    netCDF4.Dataset = dataset


class SimVariable:
    def __init__(self, d, real, path):
        self.__dict__.update(_d=d, _r=real, _p=path)

    def __setitem__(self, k, v):
        self._d.nc(self._p)
        self._r[k] = v

    def __getitem__(self, k):
        return self._r[k]

    def __len__(self):
        return len(self._r)

    def __setattr__(self, n, v):
        setattr(self._r, n, v)

    def __getattr__(self, n):
        return getattr(self._r, n)


class SimDataset:
    def __init__(self, d, real, path):
        self.__dict__.update(_d=d, _r=real, _p=path)

    def createVariable(self, *a, **k):
        self._d.nc(self._p)
        return SimVariable(self._d, self._r.createVariable(*a, **k), self._p)

    def __getitem__(self, k):
        v = self._r[k]
        return SimVariable(self._d, v, self._p)

    @property
    def variables(self):
        return {k: SimVariable(self._d, v, self._p) for k, v in self._r.variables.items()}

    def sync(self):
        self._d.nc(self._p)
        self._r.sync()

    def close(self):
        self._d.nc(self._p)
        self._r.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __setattr__(self, n, v):
        setattr(self._r, n, v)

    def __getattr__(self, n):
        return getattr(self._r, n)


class SimCursor:
    def __init__(self, conn, real):
        self._c = conn
        self._r = real

    def execute(self, *a):
        self._c._d.sql("execute", self._c._p, self._c)
        self._c._d.sql_run(self._c, lambda: self._r.execute(*a), a[0])
        return self

    def executemany(self, *a):
        self._c._d.sql("executemany", self._c._p, self._c)
        a = (a[0], list(a[1])) + a[2:]
        self._c._d.sql_run(self._c, lambda: self._r.executemany(*a), a[0])
        return self

    def executescript(self, *a):
        self._c._d.sql("executescript", self._c._p, self._c)
        self._c._d.sql_run(self._c, lambda: self._r.executescript(*a), a[0])
        return self

    def __iter__(self):
        return iter(self._r)

    def __getattr__(self, n):
        self._c._d.sqlver += 1
        return getattr(self._r, n)


class SimConnection:
    def __init__(self, d, real, path, wait):
        self.__dict__.update(_d=d, _r=real, _p=path, _rank=simmpi.current().rank, _wait=wait, _shared=False)

    def cursor(self, *a):
        return SimCursor(self, self._r.cursor(*a))

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def commit(self):
        self._d.sql("commit", self._p, self)
        self._d.sql_run(self, self._r.commit)
        self._d.sql("post_commit", self._p, self)

    def __enter__(self):
        return self

    def __exit__(self, et, *_):
        if et is None:
            self.commit()
        else:
            self.rollback()
        return False

    def rollback(self):
        self._r.rollback()
        self._d.sqlver += 1
        self.__dict__["_shared"] = False

    def close(self):
        self._r.close()
        self._d.sqlver += 1
        if self in self._d.conns:
            self._d.conns.remove(self)

    def __setattr__(self, n, v):
        setattr(self._r, n, v)

    def __getattr__(self, n):
        return getattr(self._r, n)
