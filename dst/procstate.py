"""Settings a process shares with everything else that runs in it."""
import os, sys, gc, hashlib, builtins


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


WATCHED = ("copy", "math", "warnings", "collections", "functools", "random", "decimal", "time", "datetime", "tempfile", "shutil", "threading", "logging",
           "signal", "sys", "gc", "io", "pickle", "itertools", "json.encoder", "json.decoder", "numpy.random", "numpy.lib.npyio",
           "scipy.interpolate", "scipy.integrate", "scipy.linalg", "scipy.optimize", "stl")


def thread_settings():
    """Settings each thread has for itself."""
    import numpy as np, decimal
    return {"numpy's floating-point error handling": (sorted(np.geterr().items()), repr(np.geterrcall()), np.getbufsize()),
            "the decimal context": repr(decimal.getcontext())}


def snapshot(fds=True):
    import numpy as np, random, warnings, locale, signal, threading, atexit, logging, resource, json
    s = thread_settings()
    st = np.random.get_state()
    s["numpy's print options"] = sorted((k, repr(v)) for k, v in np.get_printoptions().items())
    s["numpy's random stream"] = _h((st[0], st[1].tobytes(), st[2:]))
    s["the random stream"] = _h(random.getstate())
    s["the warning filters"] = ([repr(f) for f in warnings.filters], id(warnings.showwarning), id(warnings.formatwarning))
    s["the working directory"] = os.getcwd()
    s["the environment variables"] = dict(os.environ)
    m = os.umask(0)
    os.umask(m)
    s["the umask"] = m
    s["the recursion limit"] = sys.getrecursionlimit()
    s["the thread switch interval"] = sys.getswitchinterval()
    s["the module search path"] = list(sys.path)
    s["the standard streams"] = [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)]
    s["the exception hooks"] = [id(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook)]
    s["the locale"] = locale.setlocale(locale.LC_ALL)
    s["the signal handlers"] = [repr(signal.getsignal(x)) for x in (
        signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGHUP, signal.SIGUSR1, signal.SIGPIPE)]
    s["the interval timer"] = signal.getitimer(signal.ITIMER_REAL)[1]
    s["the running threads"] = sorted(t.name for t in threading.enumerate())
    s["the garbage collector's settings"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["the exit handlers"] = atexit._ncallbacks()
    s["the root logger"] = (logging.root.level, [id(h) for h in logging.root.handlers], logging.raiseExceptions, logging.root.manager.disable)
    s["the resource limits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CPU)]
    if fds:
        s["the open descriptors"] = sorted(os.listdir("/proc/self/fd"), key=int)
    names = {}
    for mod in (builtins, np, np.linalg, json, os, os.path, sys.modules.get("stl.stl"), sys.modules.get("stl.mesh")):
        for k, v in list(vars(mod).items()) if mod is not None else ():
            if not k.startswith("__") and k != "_":
                names[mod.__name__ + "." + k] = id(v)
    # functions and classes of modules the library or its dependencies use
    for mod in WATCHED:
        mod = sys.modules.get(mod)
        for k, v in list(vars(mod).items()) if mod is not None else ():
            if not k.startswith("__") and callable(v):
                names[mod.__name__ + "." + k] = id(v)
    for cls in (json.JSONEncoder, json.JSONDecoder, threading.Thread, logging.Logger, random.Random, warnings.catch_warnings,
                getattr(sys.modules.get("stl.mesh"), "Mesh", None)):
        for base in cls.__mro__ if cls is not None else ():
            if base.__module__.split(".")[0] in ("json", "threading", "logging", "random", "warnings", "stl"):
                for k, v in list(vars(base).items()):
                    if callable(v) or isinstance(v, (staticmethod, classmethod, property)):
                        names["%s.%s.%s" % (base.__module__, base.__name__, k)] = id(v)
    s["names of other modules"] = names
    import time, socket, faulthandler, copyreg, codecs
    s["the time zone"] = (time.tzname, time.timezone)
    s["the default socket timeout"] = socket.getdefaulttimeout()
    s["the stack size of threads"] = threading.stack_size()
    s["the process priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    s["the fault handler"] = faulthandler.is_enabled()
    s["the limit on digits of integers"] = sys.get_int_max_str_digits()
    s["how objects are pickled"] = sorted(map(repr, copyreg.dispatch_table))
    s["codec error handlers"] = [id(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "backslashreplace")]
    s["the writing of bytecode"] = sys.dont_write_bytecode
    mpl = sys.modules.get("matplotlib")
    if mpl is not None:
        s["matplotlib's settings"] = _h(sorted((k, repr(v)) for k, v in dict.items(mpl.rcParams)))
    s["numpy's modes of error and printing"] = [repr(np.geterrobj()) if hasattr(np, "geterrobj") else ""]
    return s


def changes(a, b):
    out = []
    for k in a:
        x, y = a[k], b.get(k)
        if k == "names of other modules":
            d = [n for n in x if n in y and x[n] != y[n]] + [n for n in x if n not in y]
            d += [n for n in y if n not in x and n.startswith("builtins.")]
            if d:
                out.append("%s: %s" % (k, sorted(d)[:4]))
        elif x != y:
            out.append("%s: %.160r became %.160r" % (k, x, y))
    return out


def apply(d):
    """Put the process into one of many possible states a caller may have chosen."""
    import numpy as np, random, warnings
    np.seterr(**d["err"])
    np.set_printoptions(**d["print"])
    warnings.resetwarnings()
    for f in d["warn"]:
        warnings.simplefilter(f)
    random.seed(d["seed"])
    np.random.seed(d["seed"])
    gc.set_threshold(*d["gc"])
    if not d["gcon"]:
        gc.disable()
    sys.setrecursionlimit(d["rec"])
    os.umask(d["umask"])
