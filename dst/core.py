"""Basics: environment of the simulated system, process forking, values and comparison."""
import os, sys, random, json, pickle, select, signal, time, hashlib, math, shutil, tempfile, struct

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MACHUP_DIR = os.path.join(os.path.realpath(REPO), "machup") + os.sep

ENV = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/tmp/dst-mplconfig")


IMPORT_CHANGES = []


def import_sut():
    """Import the real library from the working tree of /repo (no build step is needed)."""
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import numpy, scipy.interpolate, scipy.integrate, scipy.optimize  # noqa
    import stl, stl.stl, stl.mesh  # noqa
    import numpy.lib._datasource  # noqa
    import warnings
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    import inject, procstate
    inject.install_locks()
    before = procstate.snapshot()
    import machup.MU
    after = procstate.snapshot()
    for k in ("numpy's floating-point error handling", "numpy's print options", "numpy's random stream", "the random stream",
              "the warning filters", "the working directory", "the environment variables", "the locale", "the signal handlers"):
        IMPORT_CHANGES.extend(procstate.changes({k: before[k]}, {k: after[k]}))
    here = os.path.realpath(machup.MU.__file__)
    if not here.startswith(MACHUP_DIR):
        raise RuntimeError("imported machup from %s, not from %s" % (here, MACHUP_DIR))
    return machup.MU


# ------------------------------------------------------------------ randomness
def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


# ------------------------------------------------------------------ forking
class HarnessError(Exception):
    pass


class HarnessTimeout(HarnessError):
    pass


def answer(w, fn, *args):
    """In a child: run fn(*args), send its outcome down descriptor `w`, and end the process."""
    code = 0
    try:
        os.write(w, struct.pack("<q", os.getpid()))
        try:
            out = (True, fn(*args))
        except BaseException as e:  # harness failure inside the child
            import traceback
            out = (False, "%r\n%s" % (e, traceback.format_exc()))
        data = pickle.dumps(out, protocol=4)
        view = memoryview(data)
        while view:
            n = os.write(w, view[:1 << 20])
            view = view[n:]
    except BaseException:
        code = 3
    finally:
        os._exit(code)


class Zygote:
    """The process the simulated processes of this (worker) process are forked from."""

    def __init__(self):
        import socket, subprocess
        mine, theirs = socket.socketpair()
        keep = ("PATH", "HOME", "TMPDIR", "LD_LIBRARY_PATH", "VIRTUAL_ENV", "PYTHONPATH", "DST_REPO")
        env = {k: os.environ[k] for k in keep if k in os.environ}
        env.update(ENV, PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
        here = os.path.dirname(os.path.abspath(__file__))
        self.p = subprocess.Popen([sys.executable, os.path.join(here, "zygote.py")], stdin=theirs.fileno(), stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/", preexec_fn=same_addresses)
        theirs.close()
        self.sock, self.owner = mine, os.getpid()

    def call(self, data, timeout):
        import socket
        r, w = os.pipe()
        pid, buf, done = None, b"", False
        chunks = []
        try:
            try:
                socket.send_fds(self.sock, [struct.pack("<Q", len(data))], [w])
                self.sock.sendall(data)
            finally:
                os.close(w)
            end = time.monotonic() + timeout
            while True:
                left = end - time.monotonic()
                if left <= 0:
                    raise HarnessTimeout("child exceeded %gs of wall time" % timeout)
                rd, _, _ = select.select([r], [], [], min(left, 5.0))
                if not rd:
                    continue
                b = os.read(r, 1 << 20)
                if not b:
                    done = True
                    break
                if pid is None:
                    buf += b
                    if len(buf) < 8:
                        continue
                    pid, b = struct.unpack("<q", buf[:8])[0], buf[8:]
                chunks.append(b)
        finally:
            os.close(r)
            if not done:
                if pid:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                else:
                    self.close()
        return b"".join(chunks)

    def close(self):
        self.sock.close()
        self.p.kill()
        self.p.wait()


def same_addresses():
    """No address-space randomisation in this process (where the kernel lets us say so)."""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


_zygote = None


def fork_call(fn, case, *args, timeout=240.0):
    """Run fn(case, *args) in a process forked from a pristine one and return its value.

    The child's value comes back pickled. A Python exception in the harness code
    of the child is re-raised here as HarnessError; a wall-clock overrun as HarnessTimeout.
    """
    global _zygote
    if _zygote is None or _zygote.owner != os.getpid() or _zygote.sock.fileno() < 0:
        _zygote = Zygote()
    text = as_text(case)
    data = pickle.dumps((fn, case if text is None else text, args), protocol=4)
    try:
        data = _zygote.call(data, timeout)
    except OSError as e:
        _zygote.close()
        raise HarnessError("the simulated process could not be started: %s" % e)
    if not data:
        raise HarnessError("child died without an answer")
    ok, val = pickle.loads(data)
    if not ok:
        raise HarnessError("child failed: " + val)
    return val


def as_text(case):
    """The case as it will stand in a replay file, so that search and replay hand over the same thing."""
    try:
        text = json.dumps(case)
        if repr(listed(case)) == repr(json.loads(text)):
            return text
    except (TypeError, ValueError):
        pass
    return None


def listed(v):
    if isinstance(v, dict):
        return {k: listed(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [listed(x) for x in v]
    return v


# ------------------------------------------------------------------ scratch space
_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        base = os.environ.get("DST_TMP") or tempfile.gettempdir()
        _scratch_root = tempfile.mkdtemp(prefix="dst-", dir=base)
        os.environ["DST_SCRATCH"] = _scratch_root
    return _scratch_root


class Scratch:
    """A fresh directory below the check's scratch root, removed on exit."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="w", dir=scratch_root())
        return self.path

    def __exit__(self, *a):
        p = os.path.realpath(self.path)
        if p.startswith(os.path.realpath(scratch_root()) + os.sep):
            shutil.rmtree(p, ignore_errors=True)


# ------------------------------------------------------------------ values
def decode(v):
    """JSON value of a case -> Python value handed to the library."""
    import numpy as np
    if isinstance(v, dict):
        if len(v) == 1:
            (k, x), = v.items()
            if k == "$f64":
                return np.float64(x)
            if k == "$arr":
                return np.array(x, dtype=float)
            if k == "$nan":
                return float("nan")
            if k == "$inf":
                return float("inf") * x
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def canon(v):
    """Library value -> plain comparable value (dict/list/float/int/str/None/array)."""
    import numpy as np
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, np.ndarray):
        if v.dtype == object or v.dtype.kind in "US":
            return [canon(x) for x in v.tolist()]
        return np.array(v, dtype=float)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, bytes):
        return v
    if v is None:
        return None
    return "<%s>" % type(v).__name__


RTOL = 1e-9
ATOL = 1e-11


def _scale(d):
    import numpy as np
    s = 0.0
    for x in d:
        if isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x):
            s = max(s, abs(x))
    return s


def num_close(a, b, scale, rtol=RTOL, atol=ATOL):
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol * scale


def diff(a, b, path="", scale=0.0, rtol=RTOL, atol=ATOL):
    """None if equal within tolerance, else a short description of the first difference."""
    import numpy as np
    isn = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if isn(a) and isn(b):
        return None if num_close(float(a), float(b), scale, rtol, atol) else "%s: %r != %r" % (path or "value", a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys differ: %s" % (path or "value", sorted(set(a) ^ set(b))[:6])
        sc = max(_scale(a.values()), _scale(b.values()))
        for k in a:
            d = diff(a[k], b[k], path + "/" + str(k), sc, rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return "%s: shapes %s != %s" % (path or "value", a.shape, b.shape)
        if a.size == 0:
            return None
        fa = np.abs(a[np.isfinite(a)])
        sc = float(fa.max()) if fa.size else 0.0
        with np.errstate(all="ignore"):
            ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (
                np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + atol * sc)
        if ok.all():
            return None
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        return "%s%s: %r != %r" % (path or "value", list(i), float(a[i]), float(b[i]))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: lengths %d != %d" % (path or "value", len(a), len(b))
        sc = max(_scale(a), _scale(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), sc, rtol, atol)
            if d:
                return d
        return None
    if type(a) is type(b) and a == b:
        return None
    return "%s: %.80r != %.80r" % (path or "value", a, b)


def diff_outcome(a, b, **kw):
    """Outcomes are ("ok", value) | ("exc", type name, text) | ("budget",)."""
    if a[0] != b[0]:
        return "outcome %s, expected %s" % (brief(a), brief(b))
    if a[0] == "exc":
        return None if a[1] == b[1] else "raised %s, expected %s" % (a[1], b[1])
    if a[0] == "ok":
        return diff(a[1], b[1], **kw)
    return None


def brief(o):
    if o[0] == "ok":
        return "an answer"
    if o[0] == "exc":
        return "%s(%s)" % (o[1], str(o[2])[:80])
    return o[0]


def exact(a, b):
    """Structural, bit-exact equality of plain Python/numpy values (NaN equals NaN)."""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object or a.dtype.kind in "US":
            return a.tolist() == b.tolist()
        return bool(np.array_equal(a, b, equal_nan=True))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(json.dumps(p, sort_keys=True, default=str).encode())
    return h.hexdigest()[:16]
