"""The process every simulated process is forked from.

It is started the same way for a search and for a replay - the same few environment variables, hash
seed, arguments, working directory and descriptors, address-space randomisation off - imports the
library and never runs it, and takes no part in anything else. Memory addresses, object identities
and set order inside a simulated process are then a function of its case alone."""
import os, sys, json, pickle, socket, struct

HERE = os.path.dirname(os.path.abspath(__file__))


def recv(sock):
    """One request: the descriptor to answer on, and the payload."""
    head, fds, _, _ = socket.recv_fds(sock, 8, 1)
    if not head:
        return None, None
    n = struct.unpack("<Q", head)[0]
    parts = []
    while n:
        b = sock.recv(min(n, 1 << 20))
        if not b:
            return None, None
        parts.append(b)
        n -= len(b)
    return fds[0], b"".join(parts)


def serve():
    sys.path.insert(0, HERE)
    import core
    core.import_sut()
    import driver, engine, props      # noqa: the functions asked for live there
    sock = socket.socket(fileno=os.dup(0))
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.close(null)
    while True:
        w, data = recv(sock)
        if w is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            sock.close()
            core.answer(w, run, data)
        del data
        os.close(w)
        os.waitpid(pid, 0)


def run(data):
    fn, text, args = pickle.loads(data)
    case = json.loads(text) if isinstance(text, str) else text
    return fn(case, *args)


if __name__ == "__main__":
    serve()
