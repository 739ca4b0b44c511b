"""C16 - C21: meshes and assembly."""
import numpy as np
import pandas as pd

import gen
from claims import family
from fm import fm
from claims_net import check_event, benign, labels_defect, drop_col, drop_attr, rows_of
from claims_stack import fiber_set


def star(rng, n, size=20.):
    """Fibers which all cross at the same place."""
    p = np.sort(rng.uniform(0, np.pi, n)) + 0.05 * np.arange(n) / max(1, n)
    x = np.zeros(n)
    if rng.random() < 0.5:
        # nearly
        x = rng.normal(size=n) * 10. ** rng.uniform(-6, -2)
    return gen.fibers(size, rng.choice([4., 8.], n), x, rng.permutation(x), np.arange(n) * 1., p,
                      h=rng.choice([0.5, 1.], n))


def any_mesh(R, rng, k, nmax=9, finite=True, stacked=None, name="M"):
    """Fiber set "m", network "N" (maybe a stack), mesh "M"; returns the network's name."""
    kind = k % 6
    n = int(rng.integers(1, nmax + 1))
    if kind == 0:
        df = star(rng, min(n, 6))
    else:
        df = gen.mixed(rng, n, size=float(rng.choice([10., 30.])), lo=0.2, hi=0.9, finite=finite,
                       place=["uniform", "cluster", "edges", "corners"][k % 4],
                       angle=["any", "half", "few"][k % 3], same_h=k % 7 == 0)
        df["h"] = rng.choice([0.5, 1., 1.5], n)
    if finite:
        df["E"] = rng.uniform(50., 3000., len(df))
        df["G"] = rng.uniform(0.5, 5., len(df))
        if k % 3 == 2:
            # all regimes from pure shear to pure bending
            df["E"] = 10. ** rng.uniform(-1, 4, len(df))
            df["G"] = 10. ** rng.uniform(-2, 3, len(df))
    R.given("m", df)
    periodic = bool((k // 2) % 2)
    if kind == 4:
        R.net("N0", "m", periodic=False)
        n = len(df)
        p = gen.pairs_of(rng, n, "noself")
        R.net("N", "m", periodic=False, pairs=np.r_[p, [[i, i] for i in range(n)]] if len(p) else
              np.array([[i, i] for i in range(n)]).reshape(-1, 2))
    else:
        R.net("N", "m", periodic=periodic)
    net = "N"
    if stacked or (stacked is None and kind in (1, 2, 5)):
        R.stack("S", "m", "N", threshold=float(rng.uniform(0.5, 2.)) if kind == 2 else None)
        net = "S"
    R.mesh(name, net, "m")
    return net


@family("C16 C17", 64)
def meshes(R, rng, k):
    any_mesh(R, rng, k, 12)


@family("C16 C17", 4, 12)
def many_nodes(R, rng, k):
    R.mat("m", n=[30, 45][k % 2], length=25., seed=k)
    R.net("N", "m", periodic=bool(k % 2))
    R.mesh("M", "N", "m")
    R.stack("S", "m", "N", threshold=1.5)
    R.mesh("M2", "S", "m")


@family("C04 C06 C11 C12 C16 C17 C19 C21", 16)
def joined_tips(R, rng, k):
    """Fibers which join at their tips."""
    R.given("m", gen.joints(rng, int(rng.integers(2, 8)), float(rng.choice([10., 20.]))))
    R.net("N", "m", periodic=bool(k % 2))
    net = "N"
    if k % 4 > 1:
        R.stack("S", "m", "N")
        net = "S"
    R.mesh("M", net, "m")
    R.stiffness("K", "m", "M", lmin=float(rng.choice([0.01, 0.3])))
    R.constraint("C", "m", "M")


@family("C16 C17 C19 C20 C21", 2)
def tiny_meshes(R, rng, k):
    for n in (0, 1, 2):
        R.given("m%d" % n, gen.mixed(rng, n, size=10., lo=0.9, hi=1., place="cluster", finite=True))
        R.net("N%d" % n, "m%d" % n, periodic=bool(k % 2))
        R.mesh("M%d" % n, "N%d" % n, "m%d" % n)
        R.constraint("C%d" % n, "m%d" % n, "M%d" % n)
        R.stiffness("K%d" % n, "m%d" % n, "M%d" % n, lmin=0.01)


# ------------------------------------------------------------------- checker
def mesh_table(rng):
    n = int(rng.choice([0, 1, 2, 4, 6]))
    if rng.integers(0, 3) == 0 and n:
        mat = fm.Mat(star(rng, min(n, 4)))
    else:
        mat = fm.Mat(gen.mixed(rng, n, size=10., lo=0.4, hi=1.))
    net = fm.Net(mat, periodic=bool(rng.integers(0, 2)))
    mesh = fm.Mesh(net)
    df = pd.DataFrame({c: mesh[c].values.copy() for c in mesh.columns})
    df.attrs = dict(mesh.attrs)
    return df


def put(df, c, i, v):
    """Write one value without changing the type of the column."""
    a = df[c].values.copy()
    a[i] = v
    df[c] = a


def mesh_defect(rng, df):
    n = len(df)
    i = rows_of(rng, n)
    k = int(rng.integers(0, 17))
    if k == 0:
        return drop_col(rng, df, ["fiber", "s", "x", "y", "z", "beam", "constraint"])
    if k == 1:
        return drop_attr(rng, df, ["n", "size", "periodic"])
    if k == 2 or n == 0:
        return labels_defect(rng, df)
    if k == 3:
        c = str(rng.choice(["fiber", "beam", "constraint"]))
        if c in df.columns:
            df[c] = df[c].astype(float)
        return df
    if not {"fiber", "s", "beam", "constraint"} <= set(df.columns):
        return df
    if any(df[c].dtype != int for c in ("fiber", "beam", "constraint")):
        return df
    j = int(rng.integers(0, n))
    c = df["constraint"].values
    if k == 4:
        put(df, str(rng.choice(["beam", "constraint"])), i, int(rng.choice([-1, n, n + 7])))
    elif k == 5:
        put(df, "fiber", i, int(rng.choice([-1, df.attrs.get("n", 1), df.attrs.get("n", 1) + 2])))
    elif k == 6:
        a = df["s"].values.copy()
        a[i], a[(i + 1) % n] = a[(i + 1) % n], a[i]
        df["s"] = a
    elif k == 7:
        a = df["beam"].values.copy()
        a[i], a[j] = a[j], a[i]
        df["beam"] = a
    elif k == 8:
        put(df, "beam", i, j)
    elif k == 9:
        put(df, "constraint", i, j)
    elif k == 10:
        # two nodes exchange their partners: still reciprocal
        a = c.copy()
        if a.min() >= 0 and a.max() < n:
            p, q = a[i], a[j]
            if len({i, j, int(p), int(q)}) == 4:
                a[i], a[q], a[j], a[p] = q, i, p, j
        df["constraint"] = a
    elif k == 11:
        # a connection which is cut
        a = c.copy()
        if a.min() >= 0 and a.max() < n:
            p = a[i]
            a[i], a[p] = i, p
        df["constraint"] = a
    elif k == 12:
        # two fiber ends linked with each other
        e = [q for q in range(n) if c[q] == q]
        if len(e) > 1:
            p, q = rng.choice(e, 2, replace=False)
            a = c.copy()
            a[p], a[q] = q, p
            df["constraint"] = a
    elif k == 13:
        put(df, "s", i, df["s"].values[i] + float(rng.choice([-1e-3, 1e-3, 30., -30.])))
    elif k == 15:
        # links in a cycle: one to one, but not reciprocal
        a = c.copy()
        q = [j for j in range(n) if c[j] != j]
        if len(q) > 2:
            q = rng.permutation(q)[:int(rng.integers(3, len(q) + 1))]
            a[q] = np.roll(q, 1)
        df["constraint"] = a
    elif k == 16:
        # beams in a cycle through several fibers, or the wrong way round
        a = df["beam"].values.copy()
        if a.min() >= 0 and a.max() < n and len(set(a)) == n:
            if rng.random() < 0.5:
                a[df["beam"].values] = np.arange(n)
            else:
                a = np.roll(np.arange(n), -1)
        df["beam"] = a
    elif k == 14:
        r = rng.permutation(n)
        a = dict(df.attrs)
        df = df.iloc[r].reset_index(drop=True)
        df.attrs = a
    return df


@family("C18", 24, name="tables")
def mesh_tables(R, rng, k):
    for j in range(16):
        df = mesh_table(rng)
        m = int(rng.choice([0, 1, 1, 1, 1, 2, 3]))
        if rng.random() < 0.3:
            df = benign(rng, df)
        for _ in range(m):
            df = mesh_defect(rng, df)
        check_event(R, "Mesh", df, "%d defects" % m)


# ------------------------------------------------------------------- assembly
OPTS = [{}, {"coupling": 0.99}, {"lmin": 0.01, "coupling": 0.99}, {"lmin": 0.5}, {"lmax": 3.}, {"lmin": 0.3, "lmax": 2.},
        {"coupling": 0.}, {"coupling": 0.3, "lmin": 0.05}, {"lmin": 4.}, {"lmax": 100.}, {"lmin": 1., "lmax": 1.},
        {"lmax": 0.2}]


@family("C19", 64)
def stiffnesses(R, rng, k):
    rigid = k % 4 == 3
    any_mesh(R, rng, k, 8, finite=not rigid)
    o = dict(OPTS[k % len(OPTS)])
    R.stiffness("K", "m", "M", **o)
    R.stiffness("K2", "m", "M", **OPTS[(k // 3) % len(OPTS)])


@family("C20", 48)
def forms(R, rng, k):
    any_mesh(R, rng, k, 8)
    n = 2 * len(R.live["M"])
    fields = [rng.normal(size=n) for _ in range(3)]
    # fields which almost bend nothing: straight motions of one fiber
    M = R.live["M"]
    f = np.zeros(n)
    q = int(rng.integers(0, R.live["m"].shape[0]))
    on = (M.fiber.values == q)
    f[0::2][on] = 0.3 + 0.2 * M.s.values[on]
    f[1::2][on] = 0.2
    fields.append(f)
    g = f.copy()
    g[1::2] *= -1
    fields.append(g)
    fields.append(rng.choice([-1., 0., 1.], n))
    o = dict(coupling=float(rng.choice([0., 0.5, 0.99, 1.])), lmin=[None, 0.05][k % 2])
    # keep away from coincident nodes
    s = M.s.values[M.beam.values] - M.s.values
    if o["lmin"] is None and (s[M.beam.values > M.index.values] < 1e-3).any():
        o["lmin"] = 0.05
    R.stiffness("K", "m", "M", fields=fields, **o)


@family("C21", 64)
def constraints(R, rng, k):
    any_mesh(R, rng, k, 10)
    R.constraint("C", "m", "M")
    if k % 3 == 0:
        R.edit("M", lambda M: M.__setitem__("z", M["z"] + rng.uniform(0, 3, len(M))), "z")
        R.constraint("C2", "m", "M")
    elif k % 3 == 1:
        # thicknesses change after the assembly
        R.edit("m", lambda m: m.__setitem__("h", m["h"] * rng.choice([0.25, 0.5, 1.], len(m))), "h")
        R.constraint("C2", "m", "M")
