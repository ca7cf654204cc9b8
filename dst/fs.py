"""The simulated disk: a real scratch directory behind an interposed layer of raw file operations.

Every mutating operation on a path inside the scratch directory (open for writing, write, truncate, fsync, close,
replace, unlink, mkdir) is one numbered step.  plan["fs"]["faults"] is a list of
  {"at": step, "kind": "enospc" | "eio" | "eacces" | "short" | "torn" | "kill_before" | "kill_after" | "kill_mid" | "kbd"}
"enospc" and "eacces" last until heal(); the others hit one step.  A kill ends the process on the spot: data already
written to the file survives, data in user-space buffers does not.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import shutil

import h5py
import numpy.lib.format

from .world import REAL, rebind

OS = {k: getattr(os, k) for k in ("open", "write", "close", "replace", "rename", "unlink", "remove", "mkdir", "rmdir",
                                  "fsync", "ftruncate", "truncate", "lseek", "read", "fstat", "link", "fdatasync", "symlink", "pwrite")}
ROPEN = builtins.open


class FS:
    def __init__(self, ctx, root, cfg=None):
        self.ctx, self.root = ctx, os.path.realpath(root)
        self.faults = list((cfg or {}).get("faults", ()))
        self.n = 0
        self.active = False
        self.full = False
        self.denied = False
        self.fds = set()
        self.killed = False
        self.ops = []
        self.on_step = None

    # ---- bookkeeping
    def mine(self, p):
        try:
            if isinstance(p, int):
                return p in self.fds
            p = os.path.abspath(os.fsdecode(os.fspath(p)))
        except (TypeError, ValueError):
            return False
        return (p + os.sep).startswith(self.root + os.sep)

    def heal(self):
        self.full = self.denied = False
        self.faults = []

    def kill(self):
        self.ctx.event("kill", self.n)
        REAL["exit"](77)

    def step(self, what, size=0):
        """Count one step; returns how many bytes may be written (None: all)."""
        if not self.active:
            return None
        i = self.n
        self.n += 1
        self.ops.append(what)
        self.ctx.event("fs", i, what, size)
        if self.on_step is not None:
            self.on_step(i)
        allowed = None
        if self.denied and what in ("open", "replace", "mkdir", "unlink"):
            raise PermissionError(errno.EACCES, "Permission denied (injected)")
        if self.full and (what in ("write", "mkdir") and (size or what == "mkdir")):
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        for f in self.faults:
            if f["at"] != i:
                continue
            k = f["kind"]
            if k == "kill_before":
                self.kill()
            elif k == "kill_after":
                self.killed = True
            elif k == "kill_mid":
                if what == "write":
                    self.killed = True
                    allowed = int(size * f.get("frac", 0.5))
                else:
                    self.kill()
            elif k == "enospc":
                if what in ("write", "mkdir", "truncate"):
                    self.ctx.fault("disk_full")
                    self.full = True
                    allowed = ("err", errno.ENOSPC, int(size * f.get("frac", 0.0)))
                elif what == "open":
                    self.ctx.fault("disk_full")
                    self.full = True
                    raise OSError(errno.ENOSPC, "No space left on device (injected)")
                else:  # becomes effective at the next write
                    self.full = True
                    self.ctx.fault("disk_full")
            elif k == "eio":
                self.ctx.fault("io_error")
                allowed = ("err", errno.EIO, int(size * f.get("frac", 0.0)))
            elif k == "torn":
                self.ctx.fault("torn_write")
                allowed = ("err", errno.EIO, int(size * f.get("frac", 0.5)))
            elif k == "eacces":
                self.ctx.fault("permission_denied")
                self.denied = True
                if what in ("open", "replace", "mkdir", "unlink"):
                    raise PermissionError(errno.EACCES, "Permission denied (injected)")
            elif k == "short":
                if what == "write" and size > 1:
                    self.ctx.fault("short_write")
                    allowed = max(1, int(size * f.get("frac", 0.5)))
            elif k == "kbd":
                self.ctx.fault("interrupt_during_io")
                raise KeyboardInterrupt
        return allowed

    def after(self):
        if self.killed:
            self.kill()

    def simple(self, what, fn, *a, **k):
        al = self.step(what)
        if isinstance(al, tuple):
            raise OSError(al[1], os.strerror(al[1]) + " (injected)")
        r = fn(*a, **k)
        self.after()
        return r

    # ---- operations
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is None and self.mine(path) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            fd = self.simple("open", OS["open"], path, flags, mode)
            self.fds.add(fd)
            return fd
        return OS["open"](path, flags, mode) if dir_fd is None else OS["open"](path, flags, mode, dir_fd=dir_fd)

    def write(self, fd, data):
        data = memoryview(data).cast("B") if not isinstance(data, bytes) else data
        al = self.step("write", len(data))
        if isinstance(al, tuple):
            if al[2]:
                OS["write"](fd, data[:al[2]])
            raise OSError(al[1], os.strerror(al[1]) + " (injected)")
        if al is not None:
            data = data[:al]
        n = 0
        while n < len(data):
            n += OS["write"](fd, data[n:])
        self.after()
        return n

    def os_write(self, fd, data):
        return self.write(fd, data) if fd in self.fds else OS["write"](fd, data)

    def os_close(self, fd):
        if fd in self.fds:
            self.fds.discard(fd)
            al = None
            try:
                al = self.step("close")
            finally:
                OS["close"](fd)
            if isinstance(al, tuple):
                raise OSError(al[1], os.strerror(al[1]) + " (injected)")
            self.after()
            return
        OS["close"](fd)

    def install(self):
        fs = self
        raw_cls = _make_raw(fs)

        class h5_cls(raw_cls):  # noqa: N801  HDF5's own driver repeats short writes
            def write(self, d):
                d = memoryview(d).cast("B")
                n = 0
                try:
                    while n < len(d):
                        n += fs.write(self._fd, bytes(d[n:]))
                except OSError as e:
                    self.failed = self.failed or (e.errno, str(e.strerror))
                    raise
                return n

            failed = None

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            writing = any(c in mode for c in "wax+")
            ismine = fs.mine(file)
            if not (writing and ismine):
                return ROPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            binary = "b" in mode
            raw = raw_cls(file, mode.replace("b", "").replace("t", "").replace("U", ""), closefd, opener)
            if buffering == 0:
                return raw
            size = buffering if buffering > 1 else 8192
            try:
                if "+" in mode:
                    buf = io.BufferedRandom(raw, size)
                else:
                    buf = io.BufferedWriter(raw, size)
                if binary:
                    return buf
                text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
                text.mode = mode
                return text
            except BaseException:
                raw.close()
                raise

        pairs = [(ROPEN, sim_open)]
        builtins.open = sim_open
        io.open = sim_open

        def path2(name, what):
            real = OS[name]

            def f(a, b, *args, **kw):
                if fs.mine(a) or fs.mine(b):
                    return fs.simple(what, real, a, b, *args, **kw)
                return real(a, b, *args, **kw)

            return f

        def path1(name, what):
            real = OS[name]

            def f(a, *args, **kw):
                if fs.mine(a):
                    return fs.simple(what, real, a, *args, **kw)
                return real(a, *args, **kw)

            return f

        new = {"open": fs.os_open, "write": fs.os_write, "close": fs.os_close,
               "replace": path2("replace", "replace"), "rename": path2("rename", "replace"), "link": path2("link", "replace"),
               "unlink": path1("unlink", "unlink"), "remove": path1("remove", "unlink"), "mkdir": path1("mkdir", "mkdir"),
               "fsync": path1("fsync", "fsync"), "fdatasync": path1("fdatasync", "fsync"),
               "ftruncate": path1("ftruncate", "truncate"), "truncate": path1("truncate", "truncate")}
        for k, f in new.items():
            pairs.append((getattr(os, k), f))
            setattr(os, k, f)
        shutil._USE_CP_SENDFILE = False
        numpy.lib.format.isfileobj = lambda f: False
        for m in ("numpy.lib._format_impl",):
            try:
                __import__(m)
                import sys

                sys.modules[m].isfileobj = lambda f: False
            except ImportError:
                pass
        real_file = h5py.File

        class SimH5File(real_file):
            def __init__(self, name, mode="r", driver=None, **kw):
                self._sim_raw = None
                if driver is None and mode != "r" and not hasattr(name, "read") and fs.mine(name):
                    m = {"w": "w+", "a": "r+" if os.path.exists(name) else "w+", "r+": "r+", "x": "x+", "w-": "x+"}[mode]
                    raw = h5_cls(name, m, True, None)
                    object.__setattr__(self, "_sim_raw", raw)
                    try:
                        self._sim_do(super().__init__, raw, "w" if m != "r+" else "r+", **kw)
                    except BaseException:
                        raw.close()
                        raise
                    return
                super().__init__(name, mode, driver, **kw)

            def _sim_do(self, f, *args, **kw):
                # HDF5 goes on calling the file object with the first exception pending: which
                # exception comes out at the end depends on the interpreter's lookup cache
                try:
                    return f(*args, **kw)
                except Exception as e:
                    raw = self._sim_raw
                    if raw is None or raw.failed is None:
                        raise
                    raise OSError(*raw.failed) from e

            def create_dataset(self, *args, **kw):
                return self._sim_do(super().create_dataset, *args, **kw)

            def flush(self):
                return self._sim_do(super().flush)

            def close(self):
                raw = self._sim_raw
                self._sim_do(super().close)
                if raw is not None:
                    raw.close()

        h5py.File = SimH5File
        pairs.append((real_file, SimH5File))
        rebind(pairs)
        self.active = True
        return self


def _make_raw(fs):
    class SimRaw(io.RawIOBase):
        def __init__(self, file, mode, closefd, opener):
            self._fd = -1
            self.mode = mode
            self.name = file
            self._closefd = closefd
            self._r, self._w = "+" in mode or "r" in mode, True
            if isinstance(file, int):
                self._fd = file
                return
            base = mode.replace("+", "")
            flags = {"w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL, "r": 0}[base]
            flags |= os.O_RDWR if "+" in mode else os.O_WRONLY
            flags |= os.O_CLOEXEC
            if opener is not None:
                fd = opener(file, flags)
                fs.fds.add(fd)
            else:
                if os.path.isdir(file):
                    raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), os.fspath(file))
                fd = fs.os_open(file, flags, 0o666)
            self._fd = fd

        def readable(self):
            return self._r

        def writable(self):
            return self._w

        def seekable(self):
            return True

        def fileno(self):
            return self._fd

        def isatty(self):
            return False

        def readinto(self, b):
            d = OS["read"](self._fd, len(b))
            b[:len(d)] = d
            return len(d)

        def write(self, d):
            return fs.write(self._fd, d)

        def seek(self, off, whence=0):
            return OS["lseek"](self._fd, off, whence)

        def tell(self):
            return OS["lseek"](self._fd, 0, 1)

        def truncate(self, n=None):
            if n is None:
                n = self.tell()
            if OS["fstat"](self._fd).st_size != n:
                fs.simple("truncate", OS["ftruncate"], self._fd, n)
            return n

        def close(self):
            if not self.closed:
                try:
                    super().close()
                finally:
                    fd, self._fd = self._fd, -1
                    if fd >= 0 and self._closefd:
                        fs.os_close(fd)

        def __del__(self):
            try:
                self.close()
            except BaseException:  # noqa: BLE001
                pass

    return SimRaw
