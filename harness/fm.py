"""Recording of executions of the real library.

A Recorder runs calls of fibermat (imported from /repo/src) and writes down,
as exact numbers, what went in and what came out: a sequence of events and the
contents of every live object after each of them.  It judges nothing; the
specification does (spec/Trace.tla).
"""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
REPO_SRC = os.path.join(os.environ.get("FIBERMAT_REPO", "/repo"), "src")
sys.path.insert(0, REPO_SRC)

import contextlib
import hashlib
import io
import json
import signal
import warnings

import numpy as np
import pandas as pd
import scipy as sp

warnings.filterwarnings("ignore")
import fibermat as fm  # noqa: E402

assert os.path.realpath(fm.__file__).startswith(os.path.realpath(REPO_SRC)), fm.__file__


def num(x):
    """A number, exactly."""
    return "#" + float(x).hex()


def nums(a):
    return ["#" + v.hex() for v in np.asarray(a, dtype=float).ravel().tolist()]


def rows(a):
    a = np.asarray(a, dtype=float)
    return [["#" + v.hex() for v in r] for r in a.tolist()]


def optnum(x):
    return None if x is None else num(x)


def plain(x):
    """A value of an attribute."""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x) if abs(int(x)) < 2 ** 31 else "#%d" % int(x)
    if isinstance(x, (float, np.floating)):
        return num(x)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return "other:" + type(x).__name__


def table(df):
    """A table as the specification sees it."""
    cols, dtype, c = [], {}, {}
    for j, k in enumerate(df.columns):
        k = str(k)
        v = df.iloc[:, j].values
        if k in c:
            k = k + "'"
        cols.append(k)
        if v.dtype.kind in "iu":
            # np.dtype(int) is what the library calls an integer
            dtype[k] = "int" if v.dtype == int else "other"
            c[k] = [int(x) for x in v]
        elif v.dtype.kind == "f":
            dtype[k] = "float"
            c[k] = nums(v)
        elif v.dtype.kind == "b":
            dtype[k] = "other"
            c[k] = [int(x) for x in v]
        else:
            dtype[k] = "other"
            c[k] = [num(x) if isinstance(x, (int, float, np.integer, np.floating)) else str(x)
                    for x in v]
    index = []
    for x in df.index:
        if isinstance(x, (int, np.integer)) and abs(int(x)) < 2 ** 31:
            index.append(int(x))
        elif isinstance(x, (float, np.floating)) and float(x).is_integer():
            index.append(int(x))
        else:
            index.append(-999999)
    attrs = {str(k): plain(v) for k, v in dict(df.attrs).items()}
    return {"len": len(df), "cols": cols, "dtype": dtype, "c": c, "index": index,
            "attrs": attrs, "cls": type(df).__name__}


def triples(A):
    """A sparse matrix as coordinate triples (places from 0)."""
    A = sp.sparse.coo_matrix(A)
    return {"row": [int(i) for i in A.row], "col": [int(i) for i in A.col],
            "val": nums(A.data), "shape": [int(i) for i in A.shape]}


class Abort(Exception):
    """The current session cannot go on."""


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


@contextlib.contextmanager
def quiet(limit=120):
    """Run foreign code silently and for a limited time."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout, sys.stderr = out, err
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Recorder:
    def __init__(self):
        self.objs = []
        self.ids = {}
        self.events = []
        self.live = {}
        self.digests = {}
        self.sessions = 0
        self.where = []   # scenario of every event
        self.scenario = None
        self.special = {}
        self.origin = None   # a process which has called nothing (module alone)

    # ------------------------------------------------------------ contents
    def intern(self, value):
        s = json.dumps(value, sort_keys=True)
        k = hashlib.sha1(s.encode()).hexdigest()
        if k not in self.ids:
            self.objs.append(value)
            self.ids[k] = len(self.objs)
        return self.ids[k]

    def content(self, x):
        if isinstance(x, pd.DataFrame):
            h = hashlib.sha1()
            h.update(type(x).__name__.encode())
            h.update(repr(list(x.columns)).encode())
            for j in range(x.shape[1]):
                v = x.iloc[:, j].values
                h.update(str(v.dtype).encode())
                h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object
                         else repr(list(v)).encode())
            h.update(repr(list(x.index)).encode())
            h.update(repr(sorted((str(k), plain(v)) for k, v in dict(x.attrs).items())).encode())
            d = h.digest()
            if d not in self.digests:
                self.digests[d] = self.intern(table(x))
            return self.digests[d]
        if isinstance(x, np.ndarray):
            return self.intern({"array": nums(x), "shape": [int(k) for k in x.shape],
                                "kind": x.dtype.kind})
        if isinstance(x, Recorded):
            return self.intern(x.project())
        return self.intern(x)

    def heap(self):
        return {k: self.content(v) for k, v in self.live.items()}

    # -------------------------------------------------------------- events
    def start(self):
        self.live = {}
        self.sessions += 1
        self._push({"op": "Start", "out": None, "exc": None})

    def _push(self, e):
        e.setdefault("out", None)
        e.setdefault("exc", None)
        e.setdefault("key", None)
        e.setdefault("uses", [])
        e["heap"] = self.heap()
        self.events.append(e)
        self.where.append(self.scenario)
        return e

    def call(self, op, fn, out=None, limit=120, fatal=True, pure=None, **fields):
        """One call of the library; the event carries the fields.

        pure = (function, arguments, options): the call, so that it can be
        repeated in a process of its own.
        """
        e = dict(fields, op=op)
        res = None
        if self.origin is not None and pure is not None:
            what, args, kw = pure
            self.origin.ask(what, [self.live[a] if isinstance(a, str) else a for a in args], kw)
        try:
            with quiet(limit):
                res = fn()
            if out is not None:
                self.live[out] = res
            e["out"] = out
        except Timeout:
            e["exc"] = "Timeout"
        except Exception as x:  # noqa: BLE001
            e["exc"] = type(x).__name__
            e["msg"] = str(x)[:200]
        if self.origin is not None and pure is not None:
            a = self.origin.answer()
            e["alone"] = {"exc": a["exc"], "out": None if a["out"] is None else self.intern(a["out"]),
                          "args": [[x, self.intern(y)] for x, y in zip([x for x in pure[1] if isinstance(x, str)], a["args"])]}
        try:
            self._push(e)
        except Exception as x:  # contents which cannot be read
            e["exc"] = "unreadable result: " + type(x).__name__
            self.live.pop(out, None)
            e["out"] = None
            self._push(e)
        if e["exc"] is not None and fatal:
            raise Abort()
        return res

    def put(self, name, value, op="Given"):
        """An object which is made by the user and not by the library."""
        self.live[name] = value
        self._push({"op": op, "out": name})
        return value

    # ---------------------------------------------------------- operations
    def mat(self, out, kind_key=None, **p):
        def f():
            return fm.Mat(**p)
        q = mat_params(p)
        return self.call("Mat", f, out=out, p=q, pure=None if q["seed"] is None else ("Mat", [], p),
                         key=None if ("seed" in p and p["seed"] is None) else json.dumps(q, sort_keys=True))

    def given(self, out, df):
        """A fiber set from a table written by the user."""
        return self.call("Given", lambda: fm.Mat(df), out=out, pure=("Mat", [df], {}))

    def edit(self, target, fn, what=""):
        self.call("Edit", lambda: (fn(self.live[target]), None)[1], target=target, what=what)

    def net(self, out, mat, periodic=True, pairs=None, exact=False, rel=None, full=None, cls=None):
        m = self.live[mat]
        kw = {}
        if pairs is not None:
            kw["pairs"] = pairs
        f = lambda: (cls or fm.Net)(m, periodic=periodic, **kw)
        seq = None if pairs is None else [[int(a), int(b)] for a, b in np.asarray(pairs).reshape(-1, 2)]
        return self.call("Net", f, out=out, mat=mat, periodic=bool(periodic), exact=bool(exact),
                         pairs=seq, rel=rel, full=full, uses=[mat],
                         pure=None if cls else ("Net", [mat], dict(kw, periodic=periodic)),
                         key="%r %r" % (bool(periodic), seq))

    def stack(self, out, mat, net, threshold=None, again=None, ref=None, refmat=None):
        m, n = self.live[mat], self.live[net]
        kw = {} if threshold is None else {"threshold": threshold}
        return self.call("Stack", lambda: fm.Stack(m, n, **kw), out=out, mat=mat, net=net,
                         threshold=optnum(threshold), again=again, ref=ref, refmat=refmat,
                         uses=[mat, net], key="%r" % threshold, pure=("Stack", [mat, net], kw))

    def mesh(self, out, net, mat):
        n = self.live[net]
        return self.call("Mesh", lambda: fm.Mesh(n), out=out, net=net, mat=mat, uses=[net], key="",
                         pure=("Mesh", [net], {}))

    def stiffness(self, out, mat, mesh, fields=(), **o):
        m, me = self.live[mat], self.live[mesh]
        opts = {"lmin": optnum(o.get("lmin")), "lmax": optnum(o.get("lmax")),
                "coupling": num(o.get("coupling", 1.0))}
        return self.call("Stiffness", lambda: System(K=fm.stiffness(m, me, **o)), out=out,
                         mat=mat, mesh=mesh, o=opts, fields=[nums(x) for x in fields],
                         uses=[mat, mesh], key=json.dumps(opts, sort_keys=True),
                         pure=("stiffness", [mat, mesh], o))

    def constraint(self, out, mat, mesh):
        m, me = self.live[mat], self.live[mesh]
        return self.call("Constraint", lambda: System(C=fm.constraint(m, me)), out=out,
                         mat=mat, mesh=mesh, uses=[mat, mesh], key="", pure=("constraint", [mat, mesh], {}))

    def plot(self, stiff, cont, perm=None, own_axes=False, solvable=True, **o):
        """Draw the system (stiff, cont); the event carries the marks of every category."""
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        K, C = self.live[stiff].K, self.live[cont].C
        got = {"marks": {}, "err": None, "sameAxes": True}
        fig, ax0 = plt.subplots()

        def go():
            text = io.StringIO()
            kw = dict(o)
            if perm is not None:
                kw["perm"] = perm
            if own_axes:
                kw["ax"] = ax0
            with contextlib.redirect_stdout(text):
                ax = fm.plot_system(*K, *C, **kw)
            got["sameAxes"] = ax is ax0 if own_axes else ax is not ax0
            got["err"] = num(float(text.getvalue().split()[-1]))
            for line in ax.get_lines():
                xy = np.c_[line.get_ydata(), line.get_xdata()]
                got["marks"].setdefault(line.get_label(), []).extend([int(a), int(b)] for a, b in xy)
        try:
            with quiet(60):
                go()
            e = {}
        except Timeout:
            e = {"exc": "Timeout"}
        except Exception as x:  # noqa: BLE001
            e = {"exc": type(x).__name__, "msg": str(x)[:200]}
        plt.close("all")
        self._push(dict(got, op="Plot", stiff=stiff, cont=cont, small=bool(solvable),
                        perm=None if perm is None else [int(a) for a in perm], uses=[stiff, cont], **e))

    def solve(self, out, mat, mesh, ref=None, prefix=False, small=False, mayJam=False, rel=None, **o):
        m, me = self.live[mat], self.live[mesh]
        kw = dict(verbose=False)
        kw.update(o)
        kw.pop("label", None)
        opts = {"packing": num(o.get("packing", 1.)), "itermax": int(o.get("itermax", 1000)),
                "tol": num(o.get("tol", 1e-6)), "errtol": num(o.get("errtol", 1e-6)),
                "size": o.get("interp_size"), "mayJam": bool(mayJam), "lmin": optnum(o.get("lmin")),
                "lmax": optnum(o.get("lmax")), "coupling": num(o.get("coupling", 1.0))}
        keyed = all(k in ("packing", "itermax", "tol", "errtol", "interp_size", "coupling",
                          "lmin", "lmax", "verbose") for k in o)
        return self.call("Solve", lambda: Run(fm.solve(m, me, **kw), me, o.get("interp_size")),
                         out=out, limit=300, mat=mat, mesh=mesh, ref=ref, prefix=prefix, rel=rel,
                         small=small, o=opts, uses=[mat, mesh], pure=("solve", [mat, mesh], kw) if keyed else None,
                         key=(json.dumps({k: plain(v) for k, v in o.items()}, sort_keys=True)
                              if keyed else None))

    def dump(self, path, extra=None):
        d = {"events": self.events, "objs": self.objs, "pi": num(np.pi), "pi4": num(np.pi / 4)}
        d.update(extra or {})
        with open(path, "w") as fh:
            json.dump(d, fh)


def mat_params(p):
    """The arguments of Mat, with defaults, and the sines the specification needs."""
    q = dict(n=0, length=25., width=1., thickness=1., size=50., theta=np.pi, psi=0., shear=1.,
             tensile=np.inf, seed=0)
    q.update(p)
    h, k = 0.5 * q["theta"], 0.5 * q["psi"]
    r = {"n": int(q["n"]), "seed": None if q["seed"] is None else "#%d" % q["seed"],
         "cosT": num(np.cos(min(h, np.pi))), "sinT": num(np.sin(min(h, np.pi))),
         "sinP": num(np.sin(min(k, np.pi / 2))),
         "cos5": num(np.cos(h / 2)), "sin5": num(np.sin(h / 2)),
         "cos9": num(np.cos(h * 0.9)), "sin9": num(np.sin(h * 0.9)),
         "fullTurn": bool(0 < h <= np.pi and k <= np.pi / 2)}
    for a in ("length", "width", "thickness", "size", "theta", "psi", "shear", "tensile"):
        r[a] = num(q[a])
    return r


class Recorded:
    """A result that is kept alive and read again after later calls."""


class System(Recorded):
    def __init__(self, K=None, C=None):
        self.K, self.C = K, C

    def project(self):
        r = {}
        if self.K is not None:
            K, u, F, du, dF = self.K
            r["K"] = dict(triples(K), u=nums(u), F=nums(F), du=nums(du), dF=nums(dF))
        if self.C is not None:
            C, f, H, df, dH = self.C
            r["C"] = dict(triples(C), f=nums(f), H=nums(H), df=nums(df), dH=nums(dH))
        return r


class Run(Recorded):
    """Results of the solver."""

    def __init__(self, res, mesh, size):
        self.res = res
        self.size = size
        self.last = None

    def project(self):
        K, C, u, f, F, H, Z, rl, mask, err = self.res
        N = len(rl.t)
        ts = np.linspace(0, 1, N)
        n, m = K.shape[0], C.shape[0]
        Ck = triples(C)
        r = {"y": {"n": int(n), "m": int(m), "K": triples(K), "C": Ck}}
        if self.size is None:
            steps = []
            for t in ts:
                steps.append({"u": nums(u(t)), "f": nums(f(t)), "F": nums(F(t)), "H": nums(H(t)),
                              "Z": num(Z(t)), "rl": num(rl(t)),
                              "mask": [bool(x) for x in mask(t)], "err": num(err(t))})
            r["y"]["H0"] = nums(H(0.))
            r["steps"] = steps
            for k, t in (("first", 0.), ("last", 1.)):
                r[k] = {"u": nums(u(t)), "f": nums(f(t)), "F": nums(F(t)), "H": nums(H(t)),
                        "Z": num(Z(t)), "rl": num(rl(t))}
        else:
            r["own"] = {"u": rows(u()), "f": rows(f()), "F": rows(F()), "H": rows(H()),
                        "Z": [[num(z)] for z in Z()]}
            r["rl"] = nums(rl())
            r["steps"] = []
        return r
