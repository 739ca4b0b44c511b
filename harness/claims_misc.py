"""C33 - C35: settings, sharing and defaults."""
import hashlib
import os

import numpy as np
import pandas as pd

import claims_net
import claims_solve
import gen
from claims import family, model
from fm import fm, num, Recorded, table

# ------------------------------------------------------------------- settings
FLOATS = ["length", "width", "thickness", "size", "packing", "coupling"]
FLAGS = ["periodic", "verbose"]
MODULI = ["shear", "tensile"]
OPT_F = ["threshold", "lmin", "lmax"]
OPT_I = ["seed", "interp_size"]
SWITCHED = MODULI + OPT_F + OPT_I
DEFAULTS = dict(n=0, length=25., width=1., thickness=1., size=50., theta=1., shear=1., tensile=np.inf, seed=0,
                periodic=True, threshold=None, packing=1., itermax=1000, tol=1e-6, lmin=None, lmax=None, coupling=1.0,
                interp_size=None, verbose=True)
NAMES = list(DEFAULTS)


def val(v):
    if v is None or isinstance(v, (bool, np.bool_)):
        return v if v is None else bool(v)
    return num(v)


def setting(rng, name):
    """A value for a setting."""
    if name in FLAGS:
        return bool(rng.integers(0, 2))
    if name in MODULI and rng.random() < 0.35:
        return np.inf
    if name in OPT_F + OPT_I and rng.random() < 0.35:
        return None
    if name == "n" or name in OPT_I:
        return int(rng.choice([0, 1, 7, 100, 12345]))
    if name == "theta":
        return float(rng.choice([0., 1., 0.5, 0.37, 1.7, -0.2]))
    if name == "itermax":
        return float(rng.choice([1., 10., 1000., 250., 1e6, 1e7, 0.1, 33.7]))
    if name == "tol":
        return float(rng.choice([1e-6, 1e-10, 1e-1, 3e-4, 1e-12, 1.]))
    return float(rng.choice([0., 1., 2.5, 100., 0.01, -3., 1e6]))


def typed(rng, name):
    """A value which can be typed into the field."""
    while True:
        v = setting(rng, name)
        if v is not None and not (isinstance(v, float) and np.isinf(v)):
            return v


def observe(R, s, edit):
    read = {k: s[k] for k in NAMES}

    def unpack(**kw):
        return kw
    kw = unpack(**s)
    ints = [read["n"], read["itermax"], read["seed"], read["interp_size"]]
    R._push({"op": "Settings", "edit": edit, "read": {k: val(v) for k, v in read.items()},
             "kw": {k: val(v) for k, v in kw.items()},
             "fields": {k: val(getattr(s, k).value) for k in NAMES},
             "switches": {k: bool(getattr(s, k).switch.value) for k in SWITCHED},
             "disabled": {k: bool(getattr(s, k).disabled) for k in SWITCHED},
             "intType": all(x is None or isinstance(x, (int, np.integer)) for x in ints)})


def panel(R, args):
    from fm import quiet
    try:
        with quiet():
            s = fm.Settings(**args)
    except Exception as x:  # noqa: BLE001
        R._push({"op": "Settings", "exc": type(x).__name__, "msg": str(x)[:200],
                 "edit": {"kind": "init"}})
        raise R.Abort()
    full = dict(DEFAULTS, **args)
    edit = {"kind": "init", "args": {k: val(v) for k, v in full.items()},
            "shown": {k: val(getattr(s, k).value) for k in SWITCHED}}
    observe(R, s, edit)
    return s


def act(R, s, edit, fn):
    from fm import quiet
    try:
        with quiet():
            fn()
    except Exception as x:  # noqa: BLE001
        R._push({"op": "Settings", "exc": type(x).__name__, "msg": str(x)[:200], "edit": edit})
        raise R.Abort()
    observe(R, s, edit)


def edit_panel(R, s, kind, pairs=None, name=None, value=None):
    if kind == "set":
        def fn():
            for k, v in pairs:
                s[k] = v
        act(R, s, {"kind": "set", "pairs": [[k, val(v)] for k, v in pairs]}, fn)
    elif kind == "call":
        act(R, s, {"kind": "set", "pairs": [[k, val(v)] for k, v in pairs]}, lambda: s(**dict(pairs)))
    elif kind == "switch":
        act(R, s, {"kind": "switch", "name": name, "value": bool(value)},
            lambda: setattr(getattr(s, name).switch, "value", bool(value)))
    elif kind == "field":
        act(R, s, {"kind": "field", "name": name, "value": val(value)},
            lambda: setattr(getattr(s, name), "value", value))
    else:
        act(R, s, {"kind": "show"}, lambda: s())


@family("C33", 40, 400)
def panels(R, rng, k):
    args = {}
    if k:
        for name in rng.permutation(NAMES)[:int(rng.integers(0, 12))]:
            args[str(name)] = setting(rng, name)
        if args.get("thickness") == 0.:      # the panel shows a tensile modulus made from the dimensions
            args["thickness"] = 0.5
    s = panel(R, args)
    other = fm.Settings()
    for _ in range(24):
        kind = str(rng.choice(["set", "set", "call", "switch", "field", "show"], p=[.25, .2, .2, .2, .12, .03]))
        if rng.random() < 0.2:       # another panel is none of its business
            o = str(rng.choice(NAMES))
            other[o] = setting(rng, o)
        names = [str(x) for x in rng.permutation(NAMES)[:int(rng.integers(1, 5))]]
        if rng.random() < 0.5:
            names = [str(rng.choice(SWITCHED))] + [x for x in names[1:]]
            names = list(dict.fromkeys(names))
        if kind == "set":
            edit_panel(R, s, "set", pairs=[(x, setting(rng, x)) for x in names[:1]])
        elif kind == "call":
            edit_panel(R, s, "call", pairs=[(x, setting(rng, x)) for x in names])
        elif kind == "switch":
            edit_panel(R, s, "switch", name=str(rng.choice(SWITCHED)), value=rng.integers(0, 2))
        elif kind == "field":
            edit_panel(R, s, "field", name=names[0], value=typed(rng, names[0]))
        else:
            edit_panel(R, s, "show")


# -------------------------------------------------------------------- sharing
class Grid(Recorded):
    """An exported grid, identified by a digest of its points and fields."""

    def __init__(self, g):
        self.g = g

    def project(self):
        h = hashlib.sha1(np.ascontiguousarray(self.g.points).tobytes())
        for k in sorted(map(str, self.g.point_data.keys())):
            h.update(k.encode())
            h.update(np.ascontiguousarray(self.g.point_data[k]).tobytes())
        return {"digest": h.hexdigest(), "points": int(self.g.n_points)}


class Session:
    """Random histories over several live objects."""

    def __init__(self, R, rng, nmax=5):
        self.R, self.rng, self.nmax = R, rng, nmax
        self.kind = {}        # name -> mat, net, stack, mesh, ...
        self.parent = {}      # name -> mat name (network, stack, mesh)
        self.linked = set()   # objects which may share columns
        self.i = 0

    def new(self, kind, mat=None):
        self.i += 1
        name = "%s%d" % (kind[0].upper() if kind != "mesh" else "M", self.i)
        self.kind[name] = kind
        self.parent[name] = mat
        return name

    def some(self, *kinds, free=False):
        c = [x for x, k in self.kind.items() if k in kinds and x in self.R.live and not (free and x in self.linked)]
        return str(self.rng.choice(c)) if c else None

    def forget(self, name):
        self.kind.pop(name, None)

    def step(self):
        R, rng = self.R, self.rng
        op = str(rng.choice(["mat", "given", "net", "stack", "mesh", "wrap", "edit", "attr", "K", "C", "solve",
                             "vtk", "pairs", "again", "rand"],
                            p=[.08, .08, .12, .12, .12, .09, .12, .09, .05, .05, .03, .01, .02, .01, .01]))
        getattr(self, "do_" + op)()

    def do_rand(self):
        np.random.seed(int(self.rng.integers(0, 1000)))
        np.random.uniform(size=int(self.rng.integers(0, 9)))

    def do_mat(self):
        p = dict(n=int(self.rng.integers(0, self.nmax)), seed=int(self.rng.integers(0, 3)), size=10.,
                 length=float(self.rng.choice([4., 8.])), tensile=float(self.rng.choice([100., np.inf])))
        self.R.mat(self.new("mat"), **p)

    def do_given(self):
        rng = self.rng
        df = gen.compact(rng, int(rng.integers(1, self.nmax)), size=10., length=float(rng.choice([4., 8.])))
        name = self.new("mat")
        self.R.given(name, df)
        if rng.random() < 0.5:
            self.R.put(self.new("table"), df)     # the table of the user stays alive, with its columns shared
            self.linked |= {name, list(self.kind)[-1]}

    def do_net(self):
        m = self.some("mat")
        if m:
            self.R.net(self.new("net", m), m, periodic=bool(self.rng.integers(0, 2)))

    def do_pairs(self):
        m = self.some("mat")
        if m:
            n = len(self.R.live[m])
            P = gen.pairs_of(self.rng, n, str(self.rng.choice(["noself", "swapped", "messy", "shuffled"])))
            if len(P):
                name = self.new("pairs")
                self.R.put(name, P)
                out = self.new("net", m)
                R = self.R
                R.net(out, m, periodic=False, pairs=P)

    def do_stack(self):
        n = self.some("net", "stack")
        m = n and self.parent[n]
        if not m or m not in self.R.live or m in self.linked:
            return
        self.R.stack(self.new("stack", m), m, n, threshold=[None, None, 2.][int(self.rng.integers(0, 3))])

    def do_mesh(self):
        n = self.some("net", "stack")
        if n and self.parent[n] in self.R.live and self.full(n):
            self.R.mesh(self.new("mesh", self.parent[n]), n, self.parent[n])

    def full(self, n):
        """Every fiber has its own connection to itself."""
        N, m = self.R.live[n], self.R.live[self.parent[n]]
        return set(N.A.values[N.A.values == N.B.values]) == set(range(len(m)))

    def do_wrap(self):
        k = str(self.rng.choice(["mat", "net", "stack", "mesh"]))
        x = self.some(k)
        if not x:
            return
        cls = {"mat": "Mat", "net": "Net", "stack": str(self.rng.choice(["Net", "Stack"])), "mesh": "Mesh"}[k]
        out = self.new({"Mat": "mat", "Net": "net", "Stack": "stack", "Mesh": "mesh"}[cls], self.parent[x])
        C = getattr(fm, cls)
        o = self.R.live[x]
        self.R.call("Wrap", lambda: C(o), out=out, of=x, cls=cls, uses=[x], key=cls)
        self.linked |= {x, out}

    def do_edit(self):
        """The user changes numbers of an object in place, or its labels."""
        rng = self.rng
        x = self.some("mat", "net", "stack", "mesh", "table", free=True)
        if not x:
            return
        k = self.kind[x]
        cols = {"mat": ["z", "h", "b"], "table": ["z"], "net": ["zA", "zB"], "stack": ["zA", "zB"], "mesh": ["z"]}[k]
        c = str(rng.choice(cols))
        how = int(rng.integers(0, 4))

        def fn(df):
            if not len(df):
                return
            i = int(rng.integers(0, len(df)))
            if how == 0:
                df.loc[df.index[i], c] = float(df[c].values[i]) + 0.5
            elif how == 1:
                df[c] = df[c].values + 0.25
            elif how == 2:
                df[c].values[i] += 0.125
            else:
                df[c] += 0.0625
        self.R.edit(x, fn, "%s.%s %d" % (k, c, how))

    def do_attr(self):
        rng = self.rng
        x = self.some("mat", "net", "stack", "mesh", "table")
        if x:
            k = "note%d" % rng.integers(0, 3)
            v = int(rng.integers(0, 100))
            self.R.edit(x, lambda df: df.attrs.__setitem__(k, v), "attrs")

    def do_K(self):
        M = self.some("mesh")
        if M and self.parent[M] in self.R.live:
            self.R.stiffness(self.new("stiff", self.parent[M]), self.parent[M], M, lmin=0.05, coupling=0.99)

    def do_C(self):
        M = self.some("mesh", free=True)
        if M and self.parent[M] in self.R.live:
            self.R.constraint(self.new("con", self.parent[M]), self.parent[M], M)

    def do_solve(self):
        M = self.some("mesh", free=True)
        if M and self.parent[M] in self.R.live:
            self.R.solve(self.new("run", self.parent[M]), self.parent[M], M, packing=1.3, itermax=5, coupling=0.99,
                         lmin=0.05)

    def do_vtk(self):
        R = self.R
        M = self.some("mesh")
        if not M or self.parent[M] not in R.live or len(R.live[self.parent[M]]) > 3:
            return
        m, me = R.live[self.parent[M]], R.live[M]
        n = len(me)
        s = me.groupby("fiber").s.apply(lambda a: np.diff(np.sort(a)).min() if len(a) > 1 else 1.)
        if n == 0 or (s < 1e-3).any():
            return
        d = R.put(self.new("array"), np.linspace(0, 1, n))
        r = R.put(self.new("array"), np.linspace(1, 0, n))
        names = list(self.kind)[-2:]
        R.call("VtkMesh", lambda: Grid(fm.vtk_mesh(m, me, d, r, d, r, verbose=False)), out=self.new("grid"),
               mat=self.parent[M], mesh=M, shape=None, periodic=False, uses=[self.parent[M], M] + names, key="vtk")

    def do_again(self):
        """Drop an object; others must not care."""
        x = self.some("net", "stack", "mesh", "stiff", "con", "run")
        if x and self.R.live:
            del self.R.live[x]
            self.forget(x)
            R = self.R
            R._push({"op": "Drop", "target": x})


@family("C34", 40, 300)
def sessions(R, rng, k):
    s = Session(R, rng, nmax=4 + k % 3)
    s.do_given() if k % 2 else s.do_mat()
    s.do_net()
    for _ in range(30):
        s.step()
    if k % 4 == 0:
        s.do_vtk()
    # every object is read again, and used again
    for op in ("net", "mesh", "K", "C", "solve"):
        getattr(s, "do_" + op)()


@family("C34", 16)
def same_chain_twice(R, rng, k):
    """The chain is run, other things happen, and the chain is run again."""
    df = gen.compact(rng, int(rng.integers(2, 5)), size=10., length=6.)
    per = bool(k % 2)

    def chain(t):
        R.given("m" + t, df.copy())
        R.net("N" + t, "m" + t, periodic=per)
        R.stack("S" + t, "m" + t, "N" + t)
        R.mesh("M" + t, "S" + t, "m" + t)
        R.stiffness("K" + t, "m" + t, "M" + t, lmin=0.01)
        R.constraint("C" + t, "m" + t, "M" + t)
        R.solve("r" + t, "m" + t, "M" + t, packing=1.2, coupling=0.99, lmin=0.01)
    chain("1")
    s = Session(R, rng)
    for _ in range(6):
        s.do_mat(), s.do_net(), s.do_stack(), s.do_edit(), s.do_attr()
    chain("2")


@family("C34", 16)
def built_from(R, rng, k):
    """Objects of one chain, each of them edited in turn."""
    df = gen.compact(rng, int(rng.integers(2, 5)), size=10., length=6.)
    R.given("m", df)
    R.net("N", "m", periodic=bool(k % 2))
    if k % 3 == 0:
        R.mesh("M0", "N", "m")
    R.stack("S", "m", "N", threshold=[None, 2.][k % 2])
    R.stack("S2", "m", "N")
    R.net("N2", "m", periodic=not k % 2)
    R.mesh("M", "S2", "m")
    R.constraint("C", "m", "M")
    R.stiffness("K", "m", "M")
    R.solve("r", "m", "M", packing=1.3, itermax=4, coupling=0.99, lmin=0.05)
    for x in rng.permutation(["m", "N", "S", "S2", "N2", "M"]):
        x = str(x)
        c = {"m": "z", "M": "z"}.get(x, "zA")
        R.edit(x, lambda d: d.attrs.__setitem__("mark", x), "attrs")
        R.edit(x, lambda d: d.attrs.__setitem__("size", 11.5), "attrs.size")
        R.edit(x, lambda d: d[c].values.__setitem__(slice(None), d[c].values + 1.), "values")
        R.edit(x, lambda d: d.__setitem__(c, d[c].values * 2.), "column")
        R.edit(x, lambda d: d.__setitem__("new", 1.), "new column")


@family("C34", 16, 160)
def between_calls(R, rng, k):
    """The same calls on the same objects, after every kind of change to their contents."""
    R.given("m", gen.compact(rng, int(rng.integers(4, 8)), size=10., length=7.))
    per = bool(k % 2)
    R.net("N", "m", periodic=per)
    R.mesh("M", "N", "m")
    P = np.c_[np.triu_indices(len(R.live["m"]))]

    def again(t):
        R.net("n" + t, "m", periodic=per)
        R.net("q" + t, "m", periodic=False, pairs=P)
        R.mesh("a" + t, "N", "m")
        R.stiffness("K" + t, "m", "M", coupling=0.99)
        R.constraint("C" + t, "m", "M")
        R.solve("r" + t, "m", "M", packing=1.2, itermax=3, coupling=0.99)
        if k // 2 % 2:
            R.stack("s" + t, "m", "N")
            R.stack("t" + t, "m", "N")
        for x in ("n", "q", "a", "K", "C", "r", "s", "t"):
            if x + t in R.live:
                del R.live[x + t]
                R._push({"op": "Drop", "target": x + t})
    again("")
    edits = [("m", c, f) for c, f in (("l", 0.75), ("b", 0.5), ("h", 1.25), ("x", 0.5), ("y", 0.75), ("z", 1.5), ("G", 2.),
                                      ("E", 3.))]
    edits += [("m", "turn", 0), ("m", "size", 2.), ("M", "s", 1.25), ("M", "z", 1.5), ("M", "size", 2.), ("N", ("sA", "sB"), 0.5),
              ("N", "zB", 1.5), ("N", "size", 4.), ("N", "periodic", None), ("M", ("x", "y", "z"), 2.)]
    for j in rng.permutation(len(edits))[:9]:
        x, c, f = edits[j]
        whole = bool(rng.integers(0, 2))

        def fn(d):
            if c == "turn":
                u = d["u"].values.copy()
                d["u"], d["v"] = -d["v"].values, u
            elif c in ("size", "periodic"):
                d.attrs[c] = not d.attrs[c] if f is None else d.attrs[c] * f
            elif type(c) is tuple:
                for a in c:
                    d[a] = d[a].values * f
            elif whole:
                d[c] = d[c].values * f
            else:
                # only one fiber or node, and its value only
                i = int(rng.integers(0, len(d)))
                i = i if c != "s" else slice(None)
                d[c].values[i] *= f
        R.edit(x, fn, "%s.%s" % (x, "".join(c)))
        again("%d" % j)


@family("C34", 16)
def arguments(R, rng, k):
    """Arrays which are passed to the library are live objects as well."""
    df = gen.compact(rng, int(rng.integers(2, 6)), size=10., length=7.)
    R.put("table", df)
    R.given("m", df.copy())
    for j, kind in enumerate(("swapped", "messy", "shuffled")):
        P = gen.pairs_of(rng, len(df), kind)
        R.put("P%d" % j, P[:, ::-1].copy() if k % 2 else P)
        R.net("NP%d" % j, "m", periodic=False, pairs=R.live["P%d" % j])
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N", threshold=[None, 3.][k % 2])
    R.mesh("M", "S", "m")
    R.constraint("C", "m", "M")
    R.stiffness("K", "m", "M", lmin=0.05, coupling=0.99)
    n = R.live["K"].K[0].shape[0]
    perm = R.put("perm", rng.permutation(n + R.live["C"].C[0].shape[0]))
    R.solve("r", "m", "M", packing=1.3, itermax=4, coupling=0.99, lmin=0.05, perm=perm)
    R.plot("K", "C", perm=perm, own_axes=bool(k % 2), solvable=False)
    y = R.put("samples", rng.normal(size=(5, 3)))
    R.call("Other", lambda: fm.Interpolate(y, size=[None, 7][k % 2])(0.3), uses=["samples"])
    fields = [R.put("field%d" % j, rng.normal(size=n // 2)) for j in range(4)]
    m, M = R.live["m"], R.live["M"]
    R.call("Other", lambda: fm.vtk_mesh(m, M, *fields, verbose=False), uses=["m", "M"])
    R.call("Other", lambda: fm.vtk_mat(m, verbose=False), uses=["m"])
    R.solve("r2", "m", "M", packing=1.3, itermax=4, coupling=0.99, lmin=0.05)


def session_sets():
    """The fiber sets a and b of MC_Session."""
    rng = np.random.default_rng([int(os.environ.get("VERIF_SEED", "1")), 34])
    return {"a": gen.compact(rng, 3, size=10., length=6.), "b": gen.compact(rng, 4, size=10., length=7.)}


@model("C34", "MC_Session", "MC_Session", limit=(160, 6000), batch=20)
@model("C34", "MC_Session", "MC_SessionS", limit=(60, 1500), batch=10, workers=1,
       args=("-simulate", "num=1500", "-depth", "13", "-seed", os.environ.get("VERIF_SEED", "1")))
def replay_session(R, rng, hist):
    """A session of the model; after each step its terms are recorded."""
    sets = session_sets()
    R.start()
    R.given("m", sets["a"].copy())
    R.net("N", "m", periodic=False)
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    kind = dict(m="mat", N="net", S="stack", M="mesh")
    of = dict(N="m", S="m", M="m")
    o = dict(coupling=0.99, lmin=0.05)
    for s, terms in hist:
        op, x = s[:2]
        if op == "give":
            R.given(x, sets[s[2]].copy())
            kind[x] = "mat"
        elif op == "net":
            R.net(x, s[2], periodic=s[3] == "periodic")
        elif op == "stack":
            R.stack(x, s[2], s[3], threshold=None if s[4] == "all" else 1.5)
        elif op == "mesh":
            R.mesh(x, s[2], of[s[2]])
        elif op == "wrap":
            y = R.live[s[2]]
            cls = {"mat": "Mat", "net": "Net", "stack": "Stack", "mesh": "Mesh"}[kind[s[2]]]
            R.call("Wrap", lambda: getattr(fm, cls)(y), out=x, of=s[2], cls=cls, uses=[s[2]], key=cls)
        elif op == "edit":
            c = {"mat": "z", "mesh": "z"}.get(kind[x], "zA")
            if s[2] == "value":
                R.edit(x, lambda d: d.__setitem__(c, np.r_[d[c].values[:-1], d[c].values[-1] + 0.5]), "value")
            elif kind[x] == "mat":
                R.edit(x, lambda d: [d.__setitem__(a, d[a].values * f) for a, f in (("E", 1.5), ("b", 0.5))], "column")
            else:
                R.edit(x, lambda d: d.__setitem__(c, d[c].values + 0.25), "column")
        elif op == "note":
            R.edit(x, lambda d: d.attrs.__setitem__("note", str(d.attrs.get("note", "")) + "!"), "attrs")
        elif op == "stiffness":
            R.stiffness(x, s[2], s[3], **o)
        elif op == "constraint":
            R.constraint(x, s[2], s[3])
        elif op == "solve":
            R.solve(x, s[2], s[3], packing=1.3, itermax=4, **o)
        elif op == "drop":
            del R.live[x]
            R._push({"op": "Drop", "target": x})
        if op in ("net", "stack", "mesh", "wrap"):
            kind[x] = kind[s[2]] if op == "wrap" else op
            m = s[2] if op in ("net", "stack") else s[2] if kind[s[2]] == "mat" else of[s[2]]
            of[x] = m
        R._push({"op": "Terms", "terms": dict(terms)})


# ------------------------------------------------------- wrapping and defaults
def plain_copy(df, rng=None):
    out = pd.DataFrame({c: df[c].values.copy() for c in df.columns})
    out.index = list(df.index)
    out.attrs = dict(df.attrs)
    return out


def some_tables(rng, n=None):
    """Well-formed tables: fiber set, network, stack, mesh."""
    n = int(rng.integers(0, 6)) if n is None else n
    df = gen.compact(rng, n, size=10., length=6.)
    mat = fm.Mat(df)
    net = fm.Net(mat, periodic=bool(rng.integers(0, 2)))
    stack = fm.Stack(mat, net)
    return mat, net, stack, fm.Mesh(stack)


@family("C35", 40)
def wrapping(R, rng, k):
    mat, net, stack, mesh = some_tables(rng)
    for cls, x in (("Mat", mat), ("Net", net), ("Stack", stack), ("Mesh", mesh), ("Net", stack), ("Stack", net)):
        how = int(rng.integers(0, 4))
        t = plain_copy(x) if how < 2 else x.copy() if how == 2 else x
        if how == 1:
            t["extra"] = np.arange(len(t)) * 0.5
            t.attrs["note"] = "kept"
        name = cls + x.__class__.__name__
        R.put(name, t)
        C = getattr(fm, cls)
        a = name
        for j in range(1 + k % 3):
            b = "%s%d" % (name, j)
            o = R.live[a]
            if o.__class__.__name__ != "Mat" and isinstance(o, fm.Net) and cls == "Mesh":
                break
            R.call("Wrap", lambda: C(o), out=b, of=a, cls=cls, uses=[a], key=cls)
            a = b


def default(R, what, fn):
    e = {"op": "Default", "what": what, "empty": False}
    from fm import quiet
    try:
        with quiet():
            e["empty"] = bool(fn())
    except Exception as x:  # noqa: BLE001
        e["exc"] = type(x).__name__ + " in " + what
        e["msg"] = str(x)[:200]
    R._push(e)


def empty_table(t, cls, cols, attrs):
    return (type(t).__name__ == cls and len(t) == 0 and list(t.columns) == list(cols) and dict(t.attrs) == attrs)


def empty_system(y):
    A = y[0]
    return A.shape == (0, 0) and A.nnz == 0 and all(len(v) == 0 for v in y[1:])


@family("C35", 2)
def defaults(R, rng, k):
    NC = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
    MC = ["fiber", "s", "x", "y", "z", "beam", "constraint"]
    A0 = {"n": 0, "size": 50.}
    A1 = dict(A0, periodic=True)
    for what, f in (
            ("Mat()", lambda: empty_table(fm.Mat(), "Mat", gen.COLS, A0)),
            ("Mat(0)", lambda: empty_table(fm.Mat(0), "Mat", gen.COLS, A0)),
            ("Mat(n=0)", lambda: empty_table(fm.Mat(n=0, size=3.), "Mat", gen.COLS, {"n": 0, "size": 3.})),
            ("Net()", lambda: empty_table(fm.Net(), "Net", NC, A1)),
            ("Net(None)", lambda: empty_table(fm.Net(None), "Net", NC, A1)),
            ("Net(Mat())", lambda: empty_table(fm.Net(fm.Mat()), "Net", NC, A1)),
            ("Net(Mat(), periodic=False)",
             lambda: empty_table(fm.Net(fm.Mat(), periodic=False), "Net", NC, dict(A0, periodic=False))),
            ("Stack()", lambda: empty_table(fm.Stack(), "Stack", NC, A1)),
            ("Stack(None, None)", lambda: empty_table(fm.Stack(None, None), "Stack", NC, A1)),
            ("Stack(Mat(), Net())", lambda: empty_table(fm.Stack(fm.Mat(), fm.Net()), "Stack", NC, A1)),
            ("Mesh()", lambda: empty_table(fm.Mesh(), "Mesh", MC, A1)),
            ("Mesh(None)", lambda: empty_table(fm.Mesh(None), "Mesh", MC, A1)),
            ("Mesh(Net())", lambda: empty_table(fm.Mesh(fm.Net()), "Mesh", MC, A1)),
            ("Mesh(Stack())", lambda: empty_table(fm.Mesh(fm.Stack()), "Mesh", MC, A1)),
            ("stiffness(None, None)", lambda: empty_system(fm.stiffness(None, None))),
            ("stiffness(Mat(), Mesh())", lambda: empty_system(fm.stiffness(fm.Mat(), fm.Mesh()))),
            ("constraint(None, None)", lambda: empty_system(fm.constraint(None, None))),
            ("constraint(Mat(), Mesh())", lambda: empty_system(fm.constraint(fm.Mat(), fm.Mesh()))),
            ("solve(Mat(), Mesh())", lambda: empty_run(fm.solve(fm.Mat(), fm.Mesh(), packing=3., verbose=False))),
            ("vtk_mat()", lambda: fm.vtk_mat().n_points == 0),
            ("vtk_mesh()", lambda: fm.vtk_mesh().n_points == 0),
            ("Mat.check(None)", lambda: fm.Mat.check(None) is True),
            ("Net.check(None)", lambda: fm.Net.check(None) is True),
            ("Stack.check(None)", lambda: fm.Stack.check(None) is True),
            ("Mesh.check(None)", lambda: fm.Mesh.check(None) is True)):
        default(R, what, f)


def empty_run(r):
    K, C, u, f, F, H, Z, rl, mask, err = r
    return (K.shape == (0, 0) and C.shape == (0, 0) and all(len(v(1.)) == 0 for v in (u, f, F, H))
            and float(np.ravel(rl(1.))[0]) == 1. and float(np.ravel(Z(1.))[0]) == 0.)


@family("C35", 24, name="skip")
def skip_flag(R, rng, k):
    """Defective tables with and without the flag."""
    for j in range(8):
        cls = ["Mat", "Net", "Stack", "Mesh"][(j + k) % 4]
        mat, net, stack, mesh = some_tables(rng, int(rng.integers(1, 4)))
        x = {"Mat": mat, "Net": net, "Stack": stack, "Mesh": mesh}[cls]
        df = plain_copy(x)
        import claims_mesh
        f = {"Mat": claims_net.mat_defect, "Net": claims_net.net_defect, "Stack": claims_net.net_defect,
             "Mesh": claims_mesh.mesh_defect}[cls]
        for _ in range(int(rng.integers(0, 3))):
            df = f(rng, df)
        claims_net.check_event(R, cls, df, "no flag")
        for flag in (True, False):
            d2 = df.copy()
            d2.attrs = dict(df.attrs, skip_check=flag)
            claims_net.check_event(R, cls, d2, "flag %s" % flag)
        d3 = d2.copy()
        d3.attrs = dict(df.attrs)
        claims_net.check_event(R, cls, d3, "flag removed")
