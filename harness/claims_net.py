"""C01 - C10: fiber sets and networks."""
import numpy as np
import pandas as pd

import gen
from claims import family, model
from fm import fm, table


# ------------------------------------------------------------ generated sets
def rand_params(rng, nmax=30):
    p = {"n": int(rng.integers(0, nmax + 1))}
    for name, f in (("length", lambda: float(rng.uniform(0.1, 80))),
                    ("width", lambda: float(rng.uniform(0.01, 5))),
                    ("thickness", lambda: float(rng.uniform(0.01, 5))),
                    ("size", lambda: float(rng.choice([1., 7.5, 50., 300.]))),
                    ("theta", lambda: float(rng.choice([0., 0.1, 0.7, np.pi / 2, np.pi, 4.5, 2 * np.pi]))),
                    ("psi", lambda: float(rng.choice([0., 0.05, 0.4, 1., np.pi]))),
                    ("shear", lambda: float(rng.choice([0.3, 1., 40., np.inf]))),
                    ("tensile", lambda: float(rng.choice([10., 2500., np.inf]))),
                    ("seed", lambda: rng.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1, None]))):
        if rng.random() < 0.6:
            v = f()
            p[name] = v if v is None or name != "seed" else int(v)
            if name not in ("seed", "psi", "theta") and v > 1 and np.isfinite(v) and rng.random() < 0.25:
                p[name] = int(v)
    return p


@family("C01", 24)
def parameters(R, rng, k):
    """Fiber sets of random parameters."""
    for j in range(6):
        R.mat("m%d" % j, **rand_params(rng))


@family("C01", 8, 40)
def spread(R, rng, k):
    """Large sets must fill the ranges."""
    p = rand_params(rng)
    p["n"] = 320
    p["seed"] = int(rng.integers(0, 10 ** 6)) if k % 4 else None
    p["theta"] = [0.2, 1.0, np.pi / 2, np.pi, 1.2 * np.pi, 4.5, 2 * np.pi, float(rng.uniform(0.01, 6.28))][k % 8]
    p["psi"] = 0. if (k // 2) % 2 else float(rng.uniform(0.1, 3.1))
    R.mat("m", **p)


@family("C01", 2)
def few(R, rng, k):
    for n in (0, 1, 2, 3):
        p = rand_params(rng)
        p["n"] = n
        R.mat("m%d" % n, **p)


@family("C01", 2, 12)
def big(R, rng, k):
    """Sets of several thousands of fibers."""
    R.mat("m", **dict(rand_params(rng), n=[1500, 5000][k % 2], psi=float(rng.choice([0., .5]))))


@family("C02", 24)
def regenerate(R, rng, k):
    """The same and related generations after any history of draws."""
    base = rand_params(rng, 12)
    base["n"] = int(rng.integers(1, 12))
    base["seed"] = int(rng.choice([0, 3, 12345, 2 ** 32 - 1]))
    R.mat("m0", **base)
    for j in range(1, 10):
        p = dict(base)
        c = rng.choice(["same", "size", "theta", "psi", "dims", "moduli", "seed", "all", "n", "draws"])
        if c == "size":
            p["size"] = float(rng.uniform(1, 100))
        elif c == "theta":
            p["theta"] = float(rng.uniform(0.1, 3))
        elif c == "psi":
            p["psi"] = float(rng.uniform(0.1, 1))
        elif c == "dims":
            p.update(length=float(rng.uniform(1, 50)), width=float(rng.uniform(.1, 2)),
                     thickness=float(rng.uniform(.1, 2)))
        elif c == "moduli":
            p.update(shear=float(rng.uniform(1, 5)), tensile=float(rng.uniform(10, 500)))
        elif c == "seed":
            p["seed"] = int(rng.integers(0, 1000))
        elif c == "all":
            p = dict(rand_params(rng, 12), n=base["n"], seed=base["seed"])
        elif c == "n":
            p["n"] = int(rng.integers(0, 12))
        d = rng.integers(0, 4)
        if d == 1:
            np.random.rand(int(rng.integers(1, 50)))
        elif d == 2:
            np.random.seed(int(rng.integers(0, 1000)))
        elif d == 3:
            fm.Mat(int(rng.integers(0, 9)), seed=None)
        R.mat("m%d" % j, **p)
        if rng.random() < 0.3:
            R.edit("m%d" % j, lambda m: m.__setitem__("x", m["x"] * 0.5), "x")


@family("C02", 3)
def ranges(R, rng, k):
    """With and without angles, tilts, sizes: every range on its own."""
    base = dict(rand_params(rng), n=int(rng.integers(1, 6)), seed=int(rng.integers(0, 100)), size=10.)
    j = 0
    for theta in (0., 0.3, np.pi, 7.):
        for psi in (0., 0.4, 3.):
            R.mat("m%d" % j, **dict(base, theta=theta, psi=psi, length=[25., 1.][j % 2], size=[10., 0.1, 80.][j % 3]))
            j += 1


@family("C02", 4)
def many_seeds(R, rng, k):
    """Seeds which differ in few bits, or by powers of two or ten."""
    s = int(rng.choice([0, 1, 7, 123456]))
    other = [s] + [s + d for d in (1, 2, 10, 100, 2 ** 8, 1000, 2 ** 10, 2 ** 15, 2 ** 16, 10 ** 6, 2 ** 31)] + [2 ** 32 - 1 - s]
    p = rand_params(rng, 5)
    p["n"] = int(rng.integers(1, 5))
    for j, v in enumerate(other):
        R.mat("m%d" % j, **dict(p, seed=v))


# --------------------------------------------------------------- connections
def net_case(R, df, periodic, exact=False):
    R.given("m", df)
    R.net("N", "m", periodic=periodic, exact=exact)


SHAPES = [dict(place="uniform"), dict(place="cluster"), dict(place="edges"), dict(place="corners"),
          dict(place="boundary")]
ANGLES = ["any", "half", "axis", "few", "narrow"]


def any_mixed(rng, k, nmax=16, hi=0.95, **kw):
    return gen.mixed(rng, int(rng.integers(2, nmax + 1)), size=float(rng.choice([2., 10., 50., 80.])),
                     lo=float(rng.choice([0.05, 0.3, 0.6])), hi=hi, angle=ANGLES[k % 5],
                     sort=bool(rng.random() < 0.6), same_l=bool(rng.random() < 0.3),
                     **dict(SHAPES[(k // 5) % 5], **kw))


@family("C04", 64)
def mixed_open(R, rng, k):
    tilt = 0. if k % 3 else float(rng.uniform(0.05, 1.2))
    net_case(R, any_mixed(rng, k, hi=2.0 if k % 4 == 0 else 0.95, tilt=tilt), False)


@family("C05", 64)
def mixed_periodic(R, rng, k):
    tilt = 0. if k % 3 else float(rng.uniform(0.05, 0.8))
    net_case(R, any_mixed(rng, k, hi=1.0, tilt=tilt, nmax=13), True)


@family("C04", 40)
def lattice_open(R, rng, k):
    df = gen.lattice(rng, int(rng.integers(2, 15)), size=8., step=[0.5, 0.25, 1.][k % 3], lmax=8)
    net_case(R, df, False, exact=True)


@family("C05", 48)
def lattice_periodic(R, rng, k):
    df = gen.lattice(rng, int(rng.integers(2, 11)), size=8., step=[0.5, 1., 2.][k % 3],
                     lmax=[8, 4, 6][(k // 3) % 3], edge=True)
    net_case(R, df, True, exact=True)


@family("C05", 24)
def corner_pairs(R, rng, k):
    """Two or three fibers that can only meet across edges and corners."""
    size = float(rng.choice([1., 10., 50.]))
    n = int(rng.integers(2, 5))
    a = 0.5 * size
    x = np.sign(rng.uniform(-1, 1, n)) * a * rng.uniform(0.75, 1., n)
    y = np.sign(rng.uniform(-1, 1, n)) * a * rng.uniform(0.75, 1., n)
    if k % 3 == 0:
        y = rng.uniform(-0.3, 0.3, n) * a
    if k % 3 == 1:
        x = rng.uniform(-0.3, 0.3, n) * a
    df = gen.fibers(size, rng.uniform(0.3, 1., n) * size, x, y, np.arange(n) * 1., rng.uniform(-np.pi, np.pi, n))
    net_case(R, df, True)


@family("C05 C06 C07", 16)
def crossing_tips(R, rng, k):
    """Crossings near the tips, across the borders of the box."""
    net_case(R, gen.tips(rng, int(rng.integers(2, 9)), float(rng.choice([2., 20.])), hi=[0.5, 0.7, 1.][k % 3]), True)


@family("C08", 16)
def moving_tips(R, rng, k):
    """The same crossings everywhere in the periodic box."""
    df = gen.tips(rng, int(rng.integers(2, 11)), 10.)
    R.given("m", df)
    R.net("N", "m", periodic=True)
    for j in range(3):
        U, tr = transform(rng, df, "translate")
        R.given("U%d" % j, U)
        R.net("M%d" % j, "U%d" % j, periodic=True, rel={"mat": "m", "net": "N", "tr": tr})


@family("C04 C05 C06 C07", 8)
def generated(R, rng, k):
    p = rand_params(rng)
    p.update(n=int(rng.integers(15, 34)), size=50., length=float(rng.choice([8., 25., 50.])), seed=k)
    R.mat("m", **p)
    R.net("N", "m", periodic=False)
    R.net("P", "m", periodic=True)


@family("C04 C05 C06 C07", 2, 8)
def tiny(R, rng, k):
    for n in (0, 1, 2):
        R.given("m%d" % n, gen.mixed(rng, n, size=10., lo=0.5, hi=1.))
        R.net("N%d" % n, "m%d" % n, periodic=False)
        R.net("P%d" % n, "m%d" % n, periodic=True)


@family("C04", 2, 8)
def large_open(R, rng, k):
    net_case(R, gen.mixed(rng, 70, lo=0.1, hi=0.6), False)


@family("C05", 2, 8)
def large_periodic(R, rng, k):
    net_case(R, gen.mixed(rng, 45, lo=0.1, hi=0.7, place="edges"), True)


@family("C06", 48)
def nodes(R, rng, k):
    tilt = 0. if k % 2 else float(rng.uniform(0.05, 1.2))
    df = any_mixed(rng, k, tilt=tilt, hi=1.0)
    R.given("m", df)
    R.net("N", "m", periodic=bool(k % 4 < 2))
    if not tilt and k % 4 < 2:
        R.stack("S", "m", "N")
        if k % 8 < 2:
            R.stack("T", "m", "N", threshold=float(rng.uniform(0.5, 3)))


@family("C07", 48)
def canonical(R, rng, k):
    hi = [0.9, 1.0, 2.5][k % 3]
    df = any_mixed(rng, k, hi=hi, tilt=0. if k % 4 else 0.5, nmax=12)
    if k % 2:
        df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
        df.attrs = {"n": len(df), "size": df.attrs.get("size", 1.)} if df.attrs else df.attrs
    if k % 3 == 1:
        # the attributes may come from a network
        df.attrs = dict(df.attrs, periodic=bool(k % 2))
    R.given("m", df)
    R.net("N", "m", periodic=False)
    R.net("P", "m", periodic=True)


@family("C07", 16)
def canonical_lattice(R, rng, k):
    df = gen.lattice(rng, int(rng.integers(1, 10)), size=[8., 4., 2.][k % 3], step=0.5, lmax=8, edge=True)
    R.given("m", df)
    R.net("N", "m", periodic=False)
    R.net("P", "m", periodic=True)


# ----------------------------------------------------------------- symmetries
def transform(rng, df, kind):
    """A transformed copy of the table and its description."""
    n, size = len(df), df.attrs["size"]
    U = df.copy()
    tr = {"perm": list(range(n)), "rev": [False] * n, "scale": "#1", "exact": False}
    if kind == "mirror x":
        U.x, U.u = -U.x, -U.u
    elif kind == "mirror y":
        U.y, U.v = -U.y, -U.v
    elif kind == "turn":
        U.x, U.y, U.u, U.v = -df.y, df.x, -df.v, df.u
    elif kind == "swap axes":
        U.x, U.y, U.u, U.v = df.y, df.x, df.v, df.u
    elif kind == "reverse":
        r = rng.random(n) < 0.5
        U.loc[r, ["u", "v", "w"]] *= -1
        tr["rev"] = [bool(a) for a in r]
    elif kind == "raise":
        U.z += float(rng.uniform(-5, 50))
    elif kind == "heights":
        U.z = rng.uniform(-20, 20, n)
    elif kind == "unit":
        f = float(rng.choice([0.001, 0.5, 3., 1000.]))
        U[["l", "b", "h", "x", "y", "z"]] *= f
        size = size * f
        tr["scale"] = "#" + f.hex()
        U.x = U.x.clip(-size / 2, size / 2)
        U.y = U.y.clip(-size / 2, size / 2)
    elif kind == "relabel":
        p = rng.permutation(n)        # new label of old fiber i is p[i]
        U = df.iloc[np.argsort(p)].reset_index(drop=True)
        tr["perm"] = [int(a) for a in p]
    elif kind == "translate":
        for c in "xy":
            t = float(rng.uniform(-1, 1)) * size
            U[c] = (U[c] + t + size / 2) % size - size / 2
        U.x = U.x.clip(-size / 2, size / 2)
        U.y = U.y.clip(-size / 2, size / 2)
    U.attrs = {"n": n, "size": size}
    return U, tr


KINDS = ["mirror x", "mirror y", "turn", "swap axes", "reverse", "raise", "heights", "unit", "relabel",
         "translate"]


@family("C08", 60)
def symmetric(R, rng, k):
    kind = KINDS[k % 10]
    periodic = kind == "translate" or bool((k // 10) % 2)
    n = int(rng.integers(2, 13))
    hi = 0.5 if periodic else 1.5
    df = gen.mixed(rng, n, size=float(rng.choice([2., 20., 50.])), lo=0.3 * hi, hi=hi,
                   place=["uniform", "edges", "corners", "cluster"][(k // 20) % 4],
                   angle=["any", "half", "few"][k % 3])
    U, tr = transform(rng, df, kind)
    R.given("m", df)
    R.net("N", "m", periodic=periodic)
    R.given("U", U)
    R.net("M", "U", periodic=periodic, rel={"mat": "m", "net": "N", "tr": tr})


@family("C08", 20)
def several_symmetries(R, rng, k):
    """Compositions."""
    periodic = bool(k % 2)
    df = gen.mixed(rng, int(rng.integers(3, 12)), size=10., lo=0.2, hi=0.5, place=["uniform", "corners"][k % 2])
    R.given("m", df)
    R.net("N", "m", periodic=periodic)
    for j in range(3):
        U, tr = df, None
        for kind in rng.choice(KINDS[:8] + (["translate"] if periodic else []), 3, replace=False):
            U, t = transform(rng, U, kind)
            if tr is None:
                tr = t
            else:
                tr["rev"] = [bool(a != b) for a, b in zip(tr["rev"], t["rev"])]
                tr["scale"] = "#" + (float.fromhex(tr["scale"][1:]) * float.fromhex(t["scale"][1:])).hex()
        R.given("U%d" % j, U)
        R.net("M%d" % j, "U%d" % j, periodic=periodic, rel={"mat": "m", "net": "N", "tr": tr})


@family("C08", 20)
def nearly_parallel(R, rng, k):
    """Fibers at small angles, either way round."""
    n = int(rng.integers(2, 9))
    df = gen.mixed(rng, n, size=20., lo=0.3, hi=0.5 if k % 2 else 1.2, place="cluster", angle="narrow")
    p = float(rng.choice([1e-3, 3e-3, 1e-2])) * rng.uniform(-1, 1, n) + float(rng.uniform(-np.pi, np.pi))
    c = np.cos(p[0]), np.sin(p[0])
    # close beside each other, so that they do cross
    t, d = rng.uniform(-2, 2, n), rng.uniform(-.004, .004, n)
    df["x"], df["y"] = t * c[0] - d * c[1], t * c[1] + d * c[0]
    s = rng.choice([-1., 1.], n)
    df["u"], df["v"] = s * np.cos(p), s * np.sin(p)
    R.given("m", df)
    R.net("N", "m", periodic=bool(k % 2))
    for j, kind in enumerate(["reverse", KINDS[k % 9]]):
        U, tr = transform(rng, df, kind)
        R.given("U%d" % j, U)
        R.net("M%d" % j, "U%d" % j, periodic=bool(k % 2), rel={"mat": "m", "net": "N", "tr": tr})


# ---------------------------------------------------------------- given pairs
@family("C10", 64)
def given_pairs(R, rng, k):
    n = int(rng.integers(1, 13))
    kind = ["all", "empty", "self", "noself", "swapped", "shuffled", "messy"][k % 7]
    tilt = 0.4 if k % 5 == 0 else 0.
    R.given("m", gen.mixed(rng, n, size=20., lo=0.3, hi=1., place=["uniform", "cluster"][k % 2], tilt=tilt))
    R.net("F", "m", periodic=False)
    for j in range(2):
        R.net("N%d" % j, "m", periodic=False, pairs=gen.pairs_of(rng, n, kind), full="F")


# -------------------------------------------------------------------- checkers
def check_event(R, cls, df, what=""):
    """Present a table to the checker and to the constructor."""
    import warnings
    C = getattr(fm, cls)
    T = R.intern(table(df))
    warned = [False]

    def outcome(f):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = f()
            except Exception as x:  # noqa: BLE001
                return type(x).__name__
            finally:
                warned[0] = warned[0] or any("skip_check" in str(a.message) for a in w)
        if r is True or isinstance(r, C):
            return "ok"
        return "returned " + repr(r)[:40]

    res = outcome(lambda: C.check(df))
    built = outcome(lambda: C(df))
    R._push({"op": "Check", "cls": cls, "table": T, "result": res, "built": built, "builtOk": True,
             "warned": warned[0], "what": what})


def rows_of(rng, n):
    return int(rng.choice([0, n - 1, rng.integers(0, n)])) if n else 0


def labels_defect(rng, df):
    """Row labels which are not 0 .. m-1 in order."""
    n = len(df)
    idx = list(df.index)
    k = rng.integers(0, 6)
    if n == 0:
        return df
    i = rows_of(rng, n)
    if k == 0:
        idx[i] = idx[(i + 1) % n]
    elif k == 1:
        j = (i + 1) % n
        idx[i], idx[j] = idx[j], idx[i]
    elif k == 2:
        idx = [a + 1 for a in idx]
    elif k == 3:
        idx[i] = n + int(rng.integers(0, 5))
    elif k == 4:
        idx[i] = -1 - int(rng.integers(0, 3))
    else:
        idx = idx[::-1]
    df.index = idx
    return df


def drop_col(rng, df, cols):
    c = str(rng.choice(cols))
    return df.drop(columns=[c]) if c in df.columns else df


def drop_attr(rng, df, names):
    a = str(rng.choice(names))
    df.attrs.pop(a, None)
    return df


def benign(rng, df):
    """Changes which leave a table as good as it was."""
    k = rng.integers(0, 4)
    if k == 0:
        a = dict(df.attrs)
        df = df[list(rng.permutation(df.columns))]
        df.attrs = a
    elif k == 1:
        df["extra"] = 1.5
    elif k == 2:
        df.attrs["note"] = "x"
    return df


def mat_defect(rng, df):
    n = len(df)
    i = rows_of(rng, n)
    col = df.columns.get_loc
    k = rng.integers(0, 11)
    if k == 0:
        return drop_col(rng, df, gen.COLS)
    if k == 1:
        return drop_attr(rng, df, ["n", "size"])
    if k == 2:
        if "n" in df.attrs:
            df.attrs["n"] = int(max(0, df.attrs["n"] + rng.choice([-1, 1, 2])))
        return df
    if k == 3 or n == 0:
        return labels_defect(rng, df)

    def put(c, v):
        if c in df.columns:
            df.iloc[i, col(c)] = v
    if k in (4, 5):
        put(str(rng.choice(list("lbhGE"))), float(rng.choice([0., -1., -1e-9, np.nan, -np.inf])))
    elif k in (6, 7):
        a = 0.5 * df.attrs.get("size", 10.)
        put(str(rng.choice(list("xy"))), float(rng.choice([a * 1.0001, -a * 1.0001, a + 3, -a - 30, np.nan, np.inf,
                                                           -np.inf])))
    elif k == 8:
        if {"u", "v", "w"} <= set(df.columns):
            f = float(rng.choice([0., 0.9, 1.1, 2., np.nan]))
            for c in "uvw":
                put(c, df.iloc[i, col(c)] * f)
    elif k == 9:
        put(str(rng.choice(list("uvw"))), float(rng.choice([1.3, -2., np.nan])))
    else:
        a = 0.5 * df.attrs.get("size", 10.)          # not a defect
        put(str(rng.choice(list("xy"))), float(rng.choice([a, -a])))
        put("z", float(rng.choice([1e6, -1e6])))
        put("E", np.inf)
    return df


def plain_mat(rng, n):
    return gen.mixed(rng, n, size=10., lo=0.1, hi=1.5, tilt=0.3 if n % 2 else 0., finite=bool(n % 3))


@family("C03", 16, name="tables")
def mat_tables(R, rng, k):
    for j in range(22):
        n = int(rng.choice([0, 1, 2, 3, 8]))
        df = plain_mat(rng, n)
        m = int(rng.choice([0, 1, 1, 1, 2, 3]))
        if rng.random() < 0.3:
            df = benign(rng, df)
        for _ in range(m):
            df = mat_defect(rng, df)
        check_event(R, "Mat", df, "%d defects" % m)


@family("C03", 8)
def compensating(R, rng, k):
    """Two defects whose sum, product, mean or order is that of good values."""
    for what in ("lengths", "lengths+", "turned", "minus", "moduli", "outside", "sizes", "labels", "swap"):
        n = int(rng.integers(2, 7))
        df = plain_mat(rng, n)
        a, b = rng.permutation(n)[:2]
        U = df[[*"uvw"]].values.copy()
        if what == "lengths":
            f = float(rng.choice([2., 1.5, 1.01]))
            U[a] *= f
            U[b] /= f
        elif what == "lengths+":
            U[a] *= 1.5
            U[b] *= 0.5
        elif what == "turned":
            U[a] *= -1.            # not a defect
        df[[*"uvw"]] = U
        c = str(rng.choice(list("lbh")))
        if what == "minus":
            df.loc[[a, b], c] *= -1.
        elif what == "moduli":
            df.loc[a, ["G", "E"]] *= -1.
        elif what == "outside":
            df.loc[a, "x"], df.loc[b, "x"] = 5.5, -5.5
        elif what == "sizes":
            df.loc[a, list("lb")] *= -1.
        elif what == "labels":
            df.index = [a + 1 if i == a else i - 1 if i == a + 1 else i for i in df.index]
        elif what == "swap":
            at = dict(df.attrs)
            df = df.iloc[rng.permutation(n)]
            df.attrs = at
        check_event(R, "Mat", df, what)


def net_table(rng):
    """A plain table made from a real network, or by hand."""
    n = int(rng.choice([0, 1, 2, 4, 7]))
    mat = fm.Mat(gen.mixed(rng, n, size=10., lo=0.4, hi=1.))
    net = fm.Net(mat, periodic=bool(rng.integers(0, 2)))
    if rng.integers(0, 3) == 0:
        net = fm.Stack(mat, net)
    df = pd.DataFrame({c: net[c].values.copy() for c in net.columns})
    df.attrs = dict(net.attrs)
    return df


def add_row(df, row):
    a = dict(df.attrs)
    types = df.dtypes
    out = pd.concat([df, pd.DataFrame([row], columns=df.columns)], ignore_index=True)
    for c in df.columns:
        out[c] = out[c].astype(types[c])
    out.attrs = a
    return out


def net_defect(rng, df):
    n = len(df)
    i = rows_of(rng, n)
    k = rng.integers(0, 11)
    if k == 0:
        return drop_col(rng, df, ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"])
    if k == 1:
        return drop_attr(rng, df, ["n", "size", "periodic"])
    if k == 2 or n == 0:
        return labels_defect(rng, df)
    has = {"A", "B"} <= set(df.columns)
    if k == 3:
        c = str(rng.choice(["A", "B"]))
        if c in df.columns:
            df[c] = df[c].astype(float)
    elif k == 4 and has:
        c = str(rng.choice(["A", "B"]))
        df.loc[df.index[i], c] = int(rng.choice([-1, -5, df.attrs.get("n", n), df.attrs.get("n", n) + 3]))
    elif k == 5 and has:
        a = df.loc[df.index[i], "A"], df.loc[df.index[i], "B"]
        df["A"].values[i], df["B"].values[i] = a[1], a[0]
    elif k in (6, 7) and list(df.index) == list(range(n)):
        # a repeated connection, or one which differs in one abscissa only
        row = [df[c].values[i] for c in df.columns]
        if k == 7:
            c = str(rng.choice(["sA", "sB"]))
            if c in df.columns:
                row[list(df.columns).index(c)] += 0.25
        elif rng.random() < 0.5:
            c = str(rng.choice(["xA", "zB"]))
            if c in df.columns:
                row[list(df.columns).index(c)] += 0.25
        df = add_row(df, row)
    elif k == 8 and "n" in df.attrs:
        df.attrs["n"] = int(df.attrs["n"] + rng.choice([-1, 1]))
    elif k == 9 and has and n > 1:
        # another connection of the same pair: not a defect in itself
        j = (i + 1) % n
        for c in ("A", "B"):
            df[c].values[j] = df[c].values[i]
    elif k == 10 and has:
        df["A"].values[i] = df["B"].values[i]
    return df


@family("C09", 16, name="tables")
def net_tables(R, rng, k):
    for j in range(16):
        df = net_table(rng)
        m = int(rng.choice([0, 1, 1, 1, 2, 3]))
        if rng.random() < 0.3:
            df = benign(rng, df)
        for _ in range(m):
            df = net_defect(rng, df)
        check_event(R, ["Net", "Stack"][j % 2], df, "%d defects" % m)
