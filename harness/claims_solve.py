"""C22 - C29: compaction and interpolation."""
import numpy as np
import scipy as sp

import gen
from claims import family
from fm import fm, nums, num, rows

WELL = dict(coupling=0.99, lmin=0.01)


def problem(R, rng, k, nmax=7, nmin=2, finite=True, threshold=True):
    """A stacked, well-posed problem: fiber set "m", mesh "M"."""
    periodic = bool(k % 2)
    if k % 3 != 1:
        # beams which bend: the ceiling moves
        big = nmax - 4
        sup = int(rng.integers(2, 4)) if big > 1 else 2
        df = gen.bridges(rng, sup=sup, beams=1 + int(rng.integers(0, 2)) * (big > 2),
                         loads=1 + int(rng.integers(0, 2)) * (big > 0), top=int(rng.integers(0, 2)) * (big > 2),
                         jitter=float(rng.choice([0.05, 0.3, 0.8])), finite=finite, mixed=k % 4 != 0)
    else:
        n = int(rng.integers(nmin, nmax + 1))
        df = gen.compact(rng, n, size=10., length=float(rng.choice([4., 6., 8.])), finite=finite,
                         mixed_h=k % 4 != 0, b=float(rng.choice([0.5, 1., 2.])))
        if k % 5 == 3:
            df["l"] = rng.uniform(3., 9., n)
            df["b"] = rng.uniform(0.5, 2., n)
        if periodic:
            df["l"] = np.minimum(df["l"], 10.)
    R.given("m", df)
    R.net("N", "m", periodic=periodic)
    # a threshold may leave fibers without support: nothing moves then
    filtered = threshold and k % 7 == 1
    R.stack("S", "m", "N", threshold=float(rng.choice([0.8, 1.5, 3.])) if filtered else None)
    R.mesh("M", "S", "m")
    return dict(mayJam=filtered)


def options(rng, k):
    o = dict(WELL)
    o["packing"] = float(rng.choice([1.05, 1.2, 1.5, 2.]))
    o["itermax"] = int(rng.choice([1000, 1000, 1000, 1000, 2, 1]))
    o["coupling"] = float(rng.choice([0.99, 0.99, 0.9, 0.5]))
    o["lmin"] = float(rng.choice([0.01, 0.01, 0.3]))
    if k % 4 == 2:
        o["tol"] = float(rng.choice([1e-5, 1e-4]))
    return o


@family("C22 C23 C24 C25 C27 C28 C38", 40)
def compaction(R, rng, k):
    jam = problem(R, rng, k)
    R.solve("r", "m", "M", small=False, **jam, **options(rng, k))


@family("C22 C23 C24 C25 C27 C28 C38", 8)
def generated_compaction(R, rng, k):
    """As in the documentation, at a small scale."""
    R.mat("m", n=int(rng.integers(6, 13)), length=float(rng.choice([6., 10.])), size=float(rng.choice([10., 15.])),
          tensile=float(rng.choice([100., 625.])), seed=k, thickness=float(rng.choice([0.5, 1.])))
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N", threshold=None if k % 3 else 2.)
    R.mesh("M", "S", "m")
    R.solve("r", "m", "M", packing=float(rng.choice([1.3, 1.8])), mayJam=k % 3 == 0, **WELL)


@family("C22 C23 C24 C25 C27 C28 C38", 8)
def deep_compaction(R, rng, k):
    """Soft fibers, compacted far: contacts close at all speeds."""
    R.mat("m", n=int(rng.integers(7, 12)), length=10., size=12., tensile=float(rng.choice([20., 40., 100.])),
          seed=int(rng.integers(0, 1000)), thickness=float(rng.choice([0.5, 1.])))
    R.net("N", "m", periodic=False)
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    R.solve("r", "m", "M", packing=3., itermax=40, **WELL)


@family("C22 C23 C24 C25 C27 C28 C38", 2)
def long_compaction(R, rng, k):
    """Many steps."""
    R.mat("m", n=int(rng.integers(20, 27)), tensile=float(rng.choice([50., 100.])), seed=int(rng.integers(0, 1000)))
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    R.solve("r", "m", "M", packing=2.5, itermax=70, **WELL)


@family("C22 C24 C25 C28", 6)
def rigid_compaction(R, rng, k):
    """Infinite tensile modulus, all fibers along x: nothing or little moves."""
    n = int(rng.integers(1, 6))
    df = gen.compact(rng, n, finite=False)
    df[["u", "v"]] = [1., 0.]
    R.given("m", df)
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    R.solve("r", "m", "M", packing=1.5, mayJam=True, **WELL)


@family("C22 C23 C24 C25 C27 C28 C38", 6)
def loose(R, rng, k):
    """A mesh which was not stacked tightly: the network starts above contact."""
    problem(R, rng, k, nmax=5, threshold=False)
    # raising every fiber in turn keeps the order and opens all gaps
    def lift(M):
        z = M["z"].values.copy()
        f = M["fiber"].values
        M["z"] = z * 1.25 + 0.1
    R.edit("M", lift, "lift")
    R.solve("r", "m", "M", packing=1.6, mayJam=True, **WELL)


@family("C22 C24 C28", 6)
def no_steps(R, rng, k):
    problem(R, rng, k, nmax=4)
    R.solve("r0", "m", "M", packing=1., **WELL)
    R.solve("r1", "m", "M", packing=2., itermax=0, **WELL)
    R.solve("r2", "m", "M", packing=0.5, **WELL)


@family("C22 C24 C28", 1)
def nothing(R, rng, k):
    R.mat("m", n=0)
    R.net("N", "m")
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    R.solve("r", "m", "M", packing=2., mayJam=True, **WELL)


@family("C24 C25", 16)
def exact_machine(R, rng, k):
    """Small enough to be computed exactly."""
    df = gen.bridges(rng, jitter=float(rng.choice([0.05, 0.4, 1.])), mixed=k % 3 != 0, loads=1 + (k % 8 == 7))
    R.given("m", df)
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    if len(R.live["M"]) > 20:
        return
    R.solve("r", "m", "M", small=True, packing=float(rng.choice([1.2, 1.5, 2.])), **WELL)


# --------------------------------------------------- equivalent computations
def splu(A, b):
    try:
        return sp.sparse.linalg.splu(sp.sparse.csc_matrix(A)).solve(b)
    except RuntimeError:          # singular, as spsolve answers
        return np.full(len(b), np.nan)


def dense(A, b):
    try:
        return np.linalg.solve(A.toarray(), b)
    except np.linalg.LinAlgError:
        return np.full(len(b), np.nan)


SOLVERS = [("splu", splu), ("dense", dense)]


@family("C26", 32)
def equivalent(R, rng, k):
    problem(R, rng, k, nmax=6)
    o = dict(WELL, packing=float(rng.choice([1.2, 1.5, 2.])))
    R.solve("r", "m", "M", **o)
    n = len(R.live["r"].res[0].toarray()) + R.live["r"].res[1].shape[0]
    R.solve("p", "m", "M", ref="r", perm=rng.permutation(n), **o)
    s = SOLVERS[k % 2]
    R.solve("s", "m", "M", ref="r", solve=s[1], label=s[0], **o)
    if k % 3 == 0:
        R.solve("ps", "m", "M", ref="r", solve=s[1], perm=np.arange(n)[::-1], **o)
    R.solve("v", "m", "M", ref="r", **dict(o, verbose=True))
    R.solve("q", "m", "M", ref="r", **o)
    N = len(R.live["r"].res[7].t) - 1
    R.solve("i", "m", "M", ref="r", prefix=True, **dict(o, itermax=int(rng.integers(0, N + 1))))
    R.solve("k", "m", "M", ref="r", prefix=True, **dict(o, packing=float(rng.uniform(1., o["packing"]))))
    j = int(rng.integers(0, N + 1))
    R.solve("j", "m", "M", ref="r", prefix=True, **dict(o, itermax=j))
    R.solve("vj", "m", "M", ref="j", **dict(o, itermax=j, verbose=True))


def worse(eps, late):
    """A linear solver that is wrong by a factor 1 + eps, from some call on."""
    calls = []
    def f(A, b):
        calls.append(1)
        return sp.sparse.linalg.spsolve(A, b) * (1. + (eps if len(calls) > late else 0.))
    return f


@family("C24", 6)
def poor_solver(R, rng, k):
    """Steps which are not solved well enough are not taken, whether this is told or not."""
    problem(R, rng, k, nmax=6, threshold=False)
    for j, v in enumerate((False, True)):
        R.solve("r%d" % j, "m", "M", mayJam=True, label="poor", packing=2., itermax=4,
                solve=worse([1e-2, .5][k % 2], k % 3), **dict(WELL, verbose=v))


def in_units(df, lam, mu, frame):
    """The same fibers in other units, in a mirrored or turned box."""
    d = df.copy()
    d[[*"lbhxyz"]] *= lam
    d[[*"GE"]] *= mu
    d.attrs = dict(df.attrs, size=df.attrs["size"] * lam)
    if frame == "mirror x":
        d[["x", "u"]] *= -1
    elif frame == "mirror y":
        d[["y", "v"]] *= -1
    elif frame == "turn":
        d[["x", "y", "u", "v"]] = np.c_[-d.y, d.x, -d.v, d.u]
    return d


@family("C36", 28)
def other_units(R, rng, k):
    """The same compaction in other units and in a mirrored or turned box."""
    jam = problem(R, rng, k, nmax=6, threshold=False)
    # (the fiber set "m" has been stacked: heights are part of the comparison)
    base = R.live["m"].copy()
    o = dict(WELL, packing=float(rng.choice([1.2, 1.5, 2.])), coupling=float(rng.choice([0.99, 0.7])))
    if k % 3 == 2:
        o["tol"] = 1e-5
    R.solve("r", "m", "M", **jam, **o)
    opts = R.events[-1]["o"]
    periodic = bool(k % 2)
    for j in range(3):
        lam = float(rng.choice([1., 2., 0.25, 10., 0.3, 25.4, 1e-3, 2. ** -10, 1e3]))
        mu = float(rng.choice([1., 4., 0.1, 1e3]))
        # turned boxes may see another image of a long fiber
        frame = rng.choice(["none", "mirror x", "mirror y", "turn"]) if not periodic else "none"
        d = in_units(base, lam, mu, frame)
        d.attrs = {a: d.attrs[a] for a in ("n", "size")}
        # in plane positions, and heights above: stacking puts them back
        d["z"] = d["z"] + lam * float(rng.choice([0., 1.5])) * (np.arange(len(d)) if j else 0)
        R.given("m%d" % j, d)
        R.net("N%d" % j, "m%d" % j, periodic=periodic)
        R.stack("S%d" % j, "m%d" % j, "N%d" % j)
        R.mesh("M%d" % j, "S%d" % j, "m%d" % j)
        R.solve("r%d" % j, "m%d" % j, "M%d" % j,
                rel={"mat": "m", "mesh": "M", "run": "r", "lam": num(lam), "mu": num(mu), "o": opts},
                **dict(o, lmin=o["lmin"] * lam, tol=o.get("tol", 1e-6) * lam,
                       # the error is a force or a moment
                       errtol=1e-6 * max(1., mu * lam, mu * lam ** 2)))


@family("C37", 30)
def drawing(R, rng, k):
    """The drawing of the system, at the start and in the middle of a compaction."""
    problem(R, rng, k, nmax=6)
    w = dict(WELL)
    R.stiffness("K", "m", "M", **w)
    R.constraint("C", "m", "M")
    n, m = R.live["K"].K[0].shape[0], R.live["C"].C[0].shape[0]
    perm = [None, rng.permutation(n + m), np.arange(n + m)[::-1]][(k // 3) % 3]
    # heaps may touch in more places than can be solved for, or float
    R.plot("K", "C", perm=perm, own_axes=bool(k % 2), solvable=k % 3 != 1 and k % 7 != 1)
    if k % 2 == 0:
        # in the middle of a compaction
        from fm import System
        K, u, F, du, dF = R.live["K"].K
        C, f, H, df, dH = R.live["C"].C
        r = fm.solve(R.live["m"], R.live["M"], packing=1.5, verbose=False, **w)
        t = float(rng.choice(np.linspace(0, 1, len(r[7].t))))
        R.put("K2", System(K=(K, r[2](t), r[4](t), du.copy(), dF.copy())))
        R.put("C2", System(C=(C, r[3](t), r[5](t), df.copy(), dH.copy())))
        R.plot("K2", "C2", perm=rng.permutation(n + m), own_axes=True, solvable=False)
    if k % 5 == 0:
        # nothing at all
        R.mat("e", n=0)
        R.net("eN", "e")
        R.mesh("eM", "eN", "e")
        R.stiffness("eK", "e", "eM")
        R.constraint("eC", "e", "eM")


@family("C26 C28", 24)
def resampled(R, rng, k):
    problem(R, rng, k, nmax=5)
    o = dict(WELL, packing=float(rng.choice([1.0, 1.2, 1.8])), itermax=int(rng.choice([1000, 2])))
    R.solve("r", "m", "M", **o)
    for j, s in enumerate([2, int(rng.integers(2, 30)), 100][:2 if k % 4 else 3]):
        R.solve("R%d" % j, "m", "M", ref="r", interp_size=s, **o)


# --------------------------------------------------------------- interpolation
def interpolate(R, y, size=None, kind=None, ask=(), what=""):
    y = np.asarray(y)
    dt = {"i": "int", "u": "int", "f": "float", "b": "bool"}
    N = len(y)
    ask = [float(t) for t in ask]
    e = {"op": "Interpolate", "kind": kind or "linear", "size": size, "y": rows(y.reshape(N, -1)),
         "dtype": dt[y.dtype.kind], "shape": [int(s) for s in y.shape[1:]], "ask": nums(ask), "what": what}
    try:
        kw = {} if kind is None else {"kind": kind}
        f = fm.Interpolate([v for v in y] if y.ndim > 1 else y.tolist() if y.dtype.kind != "f" else [float(v) for v in y],
                           size=size, **kw)
        v = np.asarray(f(0.5))
        e["dtypeOut"] = dt.get(v.dtype.kind, str(v.dtype))
        e["shapeOut"] = [int(s) for s in v.shape]
        e["at"] = [nums(f(t)) for t in np.linspace(0, 1, N)]
        own = np.asarray(f())
        e["own"] = rows(own.reshape(len(own), -1))
        if len(ask) and len(ask) % 2:
            got = np.asarray(f(np.array(ask)))
            e["got"] = rows(got.reshape(len(got), -1))
        else:
            e["got"] = [nums(f(t)) for t in ask]
    except Exception as x:  # noqa: BLE001
        e["exc"] = type(x).__name__
        e["msg"] = str(x)[:200]
    R._push(e)


@family("C29", 60)
def histories(R, rng, k):
    for _ in range(8):
        N = int(rng.choice([1, 2, 3, 5, 12, 39]))
        shape = [(), (1,), (3,), (2, 2)][int(rng.integers(0, 4))]
        what = rng.choice(["float", "int", "bool", "inf", "big", "const", "ends", "partly"])
        kind = None
        if what == "bool":
            y = rng.random((N,) + shape) < 0.5
            kind = "previous"
        elif what == "int":
            y = rng.integers(-20, 20, (N,) + shape)
        elif what == "inf" and shape:
            y = rng.normal(size=(N,) + shape)
            y[..., 0] = np.inf
            if shape == (3,) and rng.random() < 0.5:
                y[..., 2] = -np.inf
        elif what == "inf":
            y = np.full(N, np.inf)
        elif what == "big":
            y = rng.normal(size=(N,) + shape) * 1e6
        elif what == "const":
            y = np.ones((N,) + shape) * 2.5
        else:
            y = rng.normal(size=(N,) + shape)
        if what == "ends" and N > 2:
            # infinite at the end
            y.reshape(N, -1)[-1, :] = [np.inf, -np.inf][int(rng.integers(0, 2))]
        if what == "partly":
            y[rng.random(y.shape) < 0.3] = np.inf
            kind = "previous"
        if what in ("float", "int", "inf") and rng.random() < 0.25:
            kind = "previous"
        size = None if rng.random() < 0.5 else int(rng.choice([2, 3, N, 2 * N, 50]))
        if size == 1 or what in ("ends", "partly"):
            size = None
        m = N if size is None else size
        ask = list(rng.uniform(0, 1, 3)) + [1.0, 1.5, 0.0, float((rng.integers(0, m) + 0.5) / max(1, m - 1))]
        interpolate(R, y, size, kind, ask[:int(rng.integers(3, 8))], str(what))


@family("C29", 4)
def one_sample_time(R, rng, k):
    """A single sample, and a single time."""
    for what in (np.array([2.5]), np.array([[1., np.inf, -3.]]), np.array([7]), np.array([[True, False]])):
        for kind in (None, "previous"):
            for size in (None, 1, 2, 5):
                if what.dtype.kind == "b" and kind is None:
                    continue
                interpolate(R, what, size, kind, [0., 0.3, 1., 2.] if size != 1 else [])
    interpolate(R, rng.normal(size=(4, 2)), 1, None, [])
