"""The simulated file layer and clock.

Real files in a scratch directory, reached through a raw-file class whose every system
call can be cut short, interrupted or failed according to a plan, and whose directory
state is recorded at every call as a possible crash state.
"""
import io, json, os, errno, builtins, sys, weakref, time as _time

_real_open = io.open
_os = {n: getattr(os, n) for n in ("open", "read", "write", "close", "lseek", "ftruncate", "fstat", "pread", "pwrite", "readv", "writev",
                                   "fsync", "fdatasync", "rename", "replace", "link", "symlink", "dup")}
_real_builtin_open = builtins.open
_time_real = {n: getattr(_time, n) for n in (
    "time", "monotonic", "perf_counter", "process_time", "thread_time", "time_ns", "monotonic_ns", "perf_counter_ns",
    "process_time_ns", "thread_time_ns", "localtime", "gmtime", "ctime", "asctime", "strftime", "sleep")}


def readable_json(data):
    """Would a reader of this file after a crash accept it as a complete document?"""
    t = (data or b"").strip()
    if not t or (t[:1] == b"{" and t[-1:] != b"}") or (t[:1] == b"[" and t[-1:] != b"]"):
        return False
    try:
        json.loads(t.decode())
        return True
    except (ValueError, UnicodeDecodeError):
        return False


LOCALE_ENCODING = None


class SimBuffered(io.BufferedIOBase):
    """A buffered writer that C code cannot mistake for an ordinary file (numpy's tofile
    would otherwise write to the descriptor behind the simulator's back)."""

    def __init__(self, inner):
        self._inner = inner

    @property
    def raw(self):
        return self._inner.raw

    @property
    def name(self):
        return self._inner.raw.name

    @property
    def mode(self):
        return self._inner.raw.mode

    @property
    def closed(self):
        return self._inner.closed

    def readable(self):
        return self._inner.readable()

    def writable(self):
        return self._inner.writable()

    def seekable(self):
        return self._inner.seekable()

    def fileno(self):
        return self._inner.fileno()

    def isatty(self):
        return False

    def read(self, n=-1):
        return self._inner.read(n)

    def read1(self, n=-1):
        return self._inner.read1(n)

    def readinto(self, b):
        return self._inner.readinto(b)

    def peek(self, n=0):
        return self._inner.peek(n)

    def write(self, b):
        return self._inner.write(b)

    def flush(self):
        return self._inner.flush()

    def seek(self, *a):
        return self._inner.seek(*a)

    def tell(self):
        return self._inner.tell()

    def truncate(self, *a):
        return self._inner.truncate(*a)

    def close(self):
        self._inner.close()


class FaultRaw(io.RawIOBase):
    def __init__(self, fs, path, mode, flags, fd=None):
        self._fs = fs
        self._fd = -1
        self.name = path
        self.mode = mode
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        if fd is not None:
            self._fd = fd
            return
        fs._event("open", path)
        fs._maybe_fail("open", path, self._w)
        self._fd = _os["open"](path, flags | os.O_CLOEXEC, 0o644)
        fs._after("open", path, self._w)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self._fd < 0:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def seek(self, pos, whence=0):
        return _os["lseek"](self.fileno(), pos, whence)

    def tell(self):
        return _os["lseek"](self.fileno(), 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._fs._event("truncate", self.name)
        self._fs._maybe_fail("truncate", self.name, True)
        _os["ftruncate"](self.fileno(), size)
        self._fs._after("truncate", self.name, True)
        return size

    def readinto(self, b):
        fs = self._fs
        fs._event("read", self.name)
        n = fs._read_len(self.name, len(b))
        fs._maybe_fail("read", self.name, False)
        data = _os["read"](self.fileno(), n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        fs = self._fs
        fs._event("write", self.name)
        view = memoryview(b).cast("B")
        n = fs._write_len(self.name, len(view))
        fs._maybe_fail("write", self.name, True)
        n = fs._quota(self.name, n)
        k = _os["write"](self.fileno(), view[:n])
        fs._after("write", self.name, True)
        return k

    def close(self):
        if self.closed:
            return
        fd, self._fd = self._fd, -1
        super().close()
        if fd >= 0:
            self._fs._event("close", self.name)
            try:
                self._fs._maybe_fail("close", self.name, self._w)
            except OSError:
                # what a failing close reports: cached data that never reached the device
                if self._w:
                    _os["ftruncate"](fd, _os["fstat"](fd).st_size // 2)
                _os["close"](fd)
                raise
            _os["close"](fd)
            self._fs._after("close", self.name, self._w)


class FS:
    """plan keys (all optional):
       scope: "out" | "in"                 which files the plan applies to
       match: ending                       and only those whose path ends so
       wchunk: [n1, n2, ...]               successive writes accept at most n_i bytes (cycled)
       rchunk: [n1, ...]                   likewise for reads
       eintr:  [i, ...]                    the i-th read/write call is interrupted first
       fail:   {"call": open|read|write|close, "n": k, "errno": "EIO"}   k-th such call fails
       quota:  bytes                       device full after that many bytes written
       sticky: true                        once a fault fired, later calls of the kind fail too
    """

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.outdir = os.path.join(self.root, "out")
        self.indir = os.path.join(self.root, "in")
        self.installed = False
        self.stats = {}
        self.live = []
        self.fds = {}             # descriptors obtained with os.open: (path, writing)
        self.begin()

    def begin(self, plan=None, snap=None):
        self.plan = plan or {}
        self.snap_path = snap
        self.snapshots = []
        self.snap_count = 0
        self.calls = {}
        self.io_calls = 0
        self.written = 0
        self.fired = []
        self.opened = []          # (relative path, mode)
        self.outside_writes = []
        self.in_opens = []

    # -- classification
    def _inside(self, path):
        p = os.path.realpath(path)
        return p.startswith(self.root + os.sep), p

    def _scoped(self, path):
        d = self.indir if self.plan.get("scope", "out") == "in" else self.outdir
        p = os.path.realpath(path)
        return p.startswith(d + os.sep) and p.endswith(self.plan.get("match", ""))

    def _count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    # -- hooks of FaultRaw
    def _event(self, call, path):
        self._count("fs_" + call)
        if self._scoped(path):
            self.calls[call] = self.calls.get(call, 0) + 1

    def _maybe_fail(self, call, path, writing):
        if not self._scoped(path):
            return
        if call in ("read", "write"):
            self.io_calls += 1
            if self.io_calls in self.plan.get("eintr", ()):
                self._fire("EINTR", call)
                raise InterruptedError(errno.EINTR, "injected EINTR")
        f = self.plan.get("fail")
        if f and f["call"] == call and (not f.get("writing") or writing):
            n = self.calls.get(call, 0)
            if n == f["n"] or (self.plan.get("sticky") and n > f["n"]):
                self._fire(f["errno"], call)
                raise OSError(getattr(errno, f["errno"]), "injected " + f["errno"], path)

    def _fire(self, kind, call):
        self.fired.append(kind + "@" + call)
        self._count("fault_%s_%s" % (kind, call))

    def _cycle(self, key, n):
        lst = self.plan.get(key)
        if not lst or n <= 0:
            return n
        i = self.calls.get("write" if key == "wchunk" else "read", 1) - 1
        k = max(1, min(n, lst[i % len(lst)]))
        if k < n:
            self._fire("short", "write" if key == "wchunk" else "read")
        return k

    def _write_len(self, path, n):
        return self._cycle("wchunk", n) if self._scoped(path) else n

    def _read_len(self, path, n):
        return self._cycle("rchunk", n) if self._scoped(path) else n

    def _quota(self, path, n):
        q = self.plan.get("quota")
        if q is not None and self._scoped(path):
            room = q - self.written
            if room <= 0:
                self._fire("ENOSPC", "write")
                raise OSError(errno.ENOSPC, "injected: no space left on device", path)
            if room < n:
                n = room
        self.written += n
        return n

    def _after(self, call, path, writing):
        if self.snap_path and writing:
            self.snap_count += 1
            data = self.read_raw(self.snap_path)
            if readable_json(data) and (not self.snapshots or self.snapshots[-1][1] != data):
                self.snapshots.append((call, data))

    @staticmethod
    def read_raw(path):
        """Contents as another process would see them; None if absent."""
        try:
            fd = _os["open"](path, os.O_RDONLY)
        except FileNotFoundError:
            return None
        except OSError:
            return None
        try:
            out = []
            while True:
                b = _os["read"](fd, 1 << 20)
                if not b:
                    return b"".join(out)
                out.append(b)
        except IsADirectoryError:
            return None
        finally:
            _os["close"](fd)

    # -- the patched open
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        fd = None
        writing = any(c in mode for c in "wax+")
        if isinstance(file, int):
            if file not in self.fds or not closefd:
                return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            path, fd = self.fds.pop(file)[0], file
        else:
            path = os.fspath(file)
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        inside, real = self._inside(path)
        if not inside:
            if writing and real != os.devnull:
                self.outside_writes.append(real)
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        text = "b" not in mode
        base = mode.replace("b", "").replace("t", "").replace("U", "")
        upd = "+" in base
        kind = base.replace("+", "")
        if kind not in ("r", "w", "a", "x"):
            raise ValueError("invalid mode: %r" % mode)
        if text is False and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        flags = {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND,
                 "x": os.O_CREAT | os.O_EXCL}[kind]
        flags |= os.O_RDWR if upd else (os.O_RDONLY if kind == "r" else os.O_WRONLY)
        if fd is None:
            self.opened.append((os.path.relpath(real, self.root), mode))
            if opener is not None:
                # what the opener opens with os.open is accounted for there
                fd = opener(path, flags | os.O_CLOEXEC)
                self.fds.pop(fd, None)
        raw = FaultRaw(self, path, base, flags, fd)
        self.live.append(weakref.ref(raw))
        if kind == "a":
            raw.seek(0, 2)
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.plan.get("bufsize", io.DEFAULT_BUFFER_SIZE) if buffering in (-1, 1) else buffering
        if upd:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return SimBuffered(buf) if writing else buf
        t = io.TextIOWrapper(buf, encoding or LOCALE_ENCODING, errors, newline, buffering == 1)
        t.mode = mode
        return t

    def open_handles(self):
        """Paths of simulated files still open."""
        res = []
        keep = []
        for w in self.live:
            r = w()
            if r is not None and not r.closed:
                res.append(os.path.relpath(os.path.realpath(r.name), self.root))
                keep.append(w)
        self.live = keep
        return res + [os.path.relpath(os.path.realpath(f[0]), self.root) for f in self.fds.values()]

    # -- the calls underneath, for a library that uses them itself
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or isinstance(path, int):
            return _os["open"](path, flags, mode, dir_fd=dir_fd)
        name = os.fsdecode(os.fspath(path))
        inside, real = self._inside(name)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if not inside or flags & getattr(os, "O_DIRECTORY", 0):
            if writing and not inside and real != os.devnull:
                self.outside_writes.append(real)
            return _os["open"](path, flags, mode)
        self.opened.append((os.path.relpath(real, self.root), "w" if writing else "r"))
        self._event("open", name)
        self._maybe_fail("open", name, writing)
        fd = _os["open"](path, flags, mode)
        self._after("open", name, writing)
        self.fds[fd] = (name, writing)
        return fd

    def os_read(self, fd, n):
        f = self.fds.get(fd)
        if f:
            self._event("read", f[0])
            n = self._read_len(f[0], n)
            self._fail_retried("read", f[0], False)
        return _os["read"](fd, n)

    def os_write(self, fd, data):
        f = self.fds.get(fd)
        if not f:
            return _os["write"](fd, data)
        self._event("write", f[0])
        view = memoryview(data).cast("B")
        n = self._write_len(f[0], len(view))
        self._fail_retried("write", f[0], True)
        n = self._quota(f[0], n)
        k = _os["write"](fd, view[:n])
        self._after("write", f[0], True)
        return k

    def _fail_retried(self, call, path, writing):
        # os.read and os.write retry interrupted calls themselves
        while True:
            try:
                return self._maybe_fail(call, path, writing)
            except InterruptedError:
                pass

    def os_close(self, fd):
        f = self.fds.pop(fd, None)
        if f:
            self._event("close", f[0])
            try:
                self._maybe_fail("close", f[0], f[1])
            except OSError:
                if f[1]:
                    _os["ftruncate"](fd, _os["fstat"](fd).st_size // 2)
                _os["close"](fd)
                raise
            _os["close"](fd)
            return self._after("close", f[0], f[1])
        return _os["close"](fd)

    def os_sync(self, call):
        def sync(fd):
            fd = fd if isinstance(fd, int) else fd.fileno()
            f = self.fds.get(fd)
            name = f[0] if f else next((r.name for r in (w() for w in self.live) if r is not None and r._fd == fd), None)
            if name is not None:
                self._event("fsync", name)
                self._maybe_fail("fsync", name, True)
            return _os[call](fd)
        return sync

    def os_move(self, call):
        def move(src, dst, **kw):
            if not kw:
                a, b = os.fsdecode(os.fspath(src)), os.fsdecode(os.fspath(dst))
                if self._inside(b)[0]:
                    self._event("rename", b)
                    self._maybe_fail("rename", b, True)
                    self.opened.append((os.path.relpath(os.path.realpath(b), self.root), "w"))
                    _os[call](src, dst)
                    return self._after("rename", b, True)
                self.outside_writes.append(os.path.realpath(b))
            return _os[call](src, dst, **kw)
        return move

    # -- installation
    def install(self):
        import numpy.lib._datasource as ds
        openers = ds._file_openers
        openers._load() if hasattr(openers, "_load") else None
        self._ds = openers
        self._ds_old = openers._file_openers.get(None)
        openers._file_openers[None] = self.open
        builtins.open = self.open
        io.open = self.open
        os.open, os.read, os.write, os.close = self.os_open, self.os_read, self.os_write, self.os_close
        for n in ("fsync", "fdatasync"):
            setattr(os, n, self.os_sync(n))
        for n in ("rename", "replace", "link"):
            setattr(os, n, self.os_move(n))
        self.installed = True

    def uninstall(self):
        if self.installed:
            self._ds._file_openers[None] = self._ds_old
            builtins.open = _real_builtin_open
            io.open = _real_open
            for n, f in _os.items():
                setattr(os, n, f)
            self.installed = False


class SimClock:
    """Wall clock, monotonic clock and numpy-stl's header date, under the simulator's control."""

    def __init__(self, start=1.0e9, jumps=()):
        self.now = float(start)
        self.jumps = list(jumps)      # seconds added at successive readings, cycled
        self.reads = 0

    def read(self):
        if self.jumps:
            self.now += self.jumps[self.reads % len(self.jumps)]
        else:
            self.now += 0.001
        self.now = min(max(self.now, 0.0), 2.5e11)
        self.reads += 1
        return self.now

    def install(self):
        """Every way the library (or numpy-stl for it) can reach a clock, including names it
        imported before this clock existed."""
        import datetime
        clock = self
        real, rdate = datetime.datetime, datetime.date

        class FakeDT(real):
            @classmethod
            def now(cls, tz=None):
                return real.fromtimestamp(clock.read(), tz)

            @classmethod
            def utcnow(cls):
                return real.utcfromtimestamp(clock.read())

            @classmethod
            def today(cls):
                return real.fromtimestamp(clock.read())

        class FakeDate(rdate):
            @classmethod
            def today(cls):
                return rdate.fromtimestamp(clock.read())
        fakes = {id(real): FakeDT, id(rdate): FakeDate}
        datetime.datetime, datetime.date = FakeDT, FakeDate
        secs = self.read

        def nanos():
            return int(self.read() * 1e9)

        def sleep(s):
            clock.now += max(0.0, float(s))

        def rendered(fn):
            # time.strftime() and friends read the clock when not told a time
            def wrapped(*a):
                need = 1 if fn.__name__ == "strftime" else 0
                if len(a) <= need or a[need] is None:
                    t = clock.read()
                    a = a[:need] + ((_time_real["localtime"](t),) if fn.__name__ in ("strftime", "asctime") else (t,))
                return fn(*a)
            return wrapped
        for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
            fakes[id(_time_real[n])] = secs
            setattr(_time, n, secs)
        for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns", "thread_time_ns"):
            fakes[id(_time_real[n])] = nanos
            setattr(_time, n, nanos)
        for n in ("localtime", "gmtime", "ctime", "asctime", "strftime"):
            f = rendered(_time_real[n])
            fakes[id(_time_real[n])] = f
            setattr(_time, n, f)
        fakes[id(_time_real["sleep"])] = sleep
        _time.sleep = sleep
        for name, mod in list(sys.modules.items()):
            if mod is not None and name.split(".")[0] in ("machup", "stl"):
                for k, v in list(vars(mod).items()):
                    if id(v) in fakes and not k.startswith("__"):
                        setattr(mod, k, fakes[id(v)])
