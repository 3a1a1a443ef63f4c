"""A fresh interpreter: reads one pickled job from stdin, runs its history, writes the records."""
import os, sys, pickle


def machine(f):
    """What programs can ask about the machine and the process they run on."""
    import platform, socket, threading, resource
    os.cpu_count = lambda: f["cpus"]
    os.sched_getaffinity = lambda pid=0: set(range(f["cpus"]))
    os.getpid = lambda: f["pid"]
    os.getppid = lambda: f["pid"] - 1
    os.getloadavg = lambda: (f["load"],) * 3
    os.isatty = lambda fd: f["tty"]
    real = os.uname()
    u = os.uname_result((real.sysname, f["host"], f["release"], f["release"], real.machine))
    os.uname = lambda: u
    socket.gethostname = platform.node = lambda: f["host"]
    platform.release = platform.version = lambda: f["release"]
    for _ in range(f["threads"]):
        threading.Thread(target=threading.Event().wait, daemon=True).start()
    import simfs
    simfs.LOCALE_ENCODING = f.get("text")
    resource.setrlimit(resource.RLIMIT_NOFILE, (f["files"], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))


def main():
    job = pickle.load(sys.stdin.buffer)
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        import core, random
        if job.get("machine"):
            machine(job["machine"])
        core.import_sut()
        import driver
        import numpy as np
        np.random.seed(job["rand"] % 2 ** 32)
        random.seed(job["rand"])
        if job.get("settings"):
            import procstate
            procstate.apply(job["settings"])
        sys.argv[1:] = job.get("argv") or []
        if job.get("gc"):
            import gc
            gc.disable() if job["gc"] == "off" else gc.set_threshold(job["gc"])
        res = (True, driver.run_history(job["case"]))
    except BaseException as e:
        import traceback
        res = (False, "%r\n%s" % (e, traceback.format_exc()))
    data = pickle.dumps(res, protocol=4)
    view = memoryview(data)
    while view:
        view = view[os.write(out, view):]
    os._exit(0)


main()
