"""Calls of the library in processes of their own.

A process which never called the library (the origin) is kept from the start.
For every call it makes a copy of itself, which does this one call on copies
of the arguments, reports the contents afterwards, and ends.
"""
import json
import os
import pickle
import signal
import time
from multiprocessing.connection import Client, Listener

import pandas as pd


def pack(x):
    """An argument, so that it can be sent to another process."""
    if isinstance(x, pd.DataFrame):
        return ("table", type(x).__name__, [(k, x.iloc[:, j].values.copy()) for j, k in enumerate(x.columns)],
                x.index.copy(), dict(x.attrs))
    return ("value", x)


def unpack(p):
    from fm import fm
    if p[0] == "value":
        return p[1]
    _, cls, cols, index, attrs = p
    df = pd.DataFrame(dict(cols), index=index)
    if cls != "DataFrame":
        o = getattr(fm, cls).__new__(getattr(fm, cls))
        pd.DataFrame.__init__(o, df)
        df = o
    df.attrs = attrs
    return df


def project(x):
    import fm
    if isinstance(x, pd.DataFrame):
        return fm.table(x)
    return x.project()


def perform(request):
    """Do one call; the projections of the result and of the arguments."""
    from fm import fm, quiet, Run, System
    what, args, kw = pickle.loads(request)
    args = [unpack(a) for a in args]
    try:
        with quiet(300):
            if what == "stiffness":
                out = System(K=fm.stiffness(*args, **kw))
            elif what == "constraint":
                out = System(C=fm.constraint(*args, **kw))
            elif what == "solve":
                out = Run(fm.solve(*args, **kw), args[1], kw.get("interp_size"))
            else:
                out = getattr(fm, what)(*args, **kw)
        r = {"out": project(out), "args": [project(a) for a in args if isinstance(a, pd.DataFrame)], "exc": None}
    except BaseException as x:  # noqa: BLE001
        r = {"out": None, "args": [], "exc": "%s: %s" % (type(x).__name__, str(x)[:200])}
    return json.dumps(r).encode()


def in_a_copy(request):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = perform(request)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return data or b'{"out": null, "args": [], "exc": "died"}'


def _serve(conn):
    while True:
        try:
            request = conn.recv_bytes()
        except EOFError:
            return
        conn.send_bytes(in_a_copy(request))


class Origin:
    """The process which never calls the library."""

    def __init__(self, folder):
        self.path = os.path.join(folder, "origin")
        self.pid = os.fork()
        if self.pid:
            while not os.path.exists(self.path):
                time.sleep(0.01)
            return
        try:
            parent = os.getppid()
            listener = Listener(self.path, "AF_UNIX", backlog=64)
            listener._listener._socket.settimeout(2.)
            signal.signal(signal.SIGCHLD, signal.SIG_IGN)
            while os.getppid() == parent:
                try:
                    conn = listener.accept()
                except TimeoutError:
                    continue
                if os.fork() == 0:
                    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                    listener._listener._socket.close()
                    _serve(conn)
                    os._exit(0)
                conn.close()
        finally:
            os._exit(0)

    def connect(self):
        return Connection(Client(self.path, "AF_UNIX"))

    def stop(self):
        os.kill(self.pid, signal.SIGKILL)


class Connection:
    def __init__(self, conn):
        self.conn = conn

    def ask(self, what, args, kw):
        self.conn.send_bytes(pickle.dumps((what, [pack(a) for a in args], kw)))

    def answer(self):
        return json.loads(self.conn.recv_bytes())
