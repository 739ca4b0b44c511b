"""C30 - C32: exported shapes."""
import numpy as np
import pandas as pd

import gen
from claims import family
from fm import fm, num, nums, rows

SCALARS = ("fiber", "G", "E", "node", "rotation", "curvature", "force")
NP = 2 * 9 * 20   # points of a fiber with the default resolutions


def export(g, need=None):
    """Points and point fields of an exported grid."""
    P = np.asarray(g.points, dtype=float)
    names = [str(k) for k in g.point_data.keys()]
    f = {}
    for k in names:
        v = np.asarray(g.point_data[k])
        if v.ndim == 1:
            f[k] = [int(x) for x in v] if k == "fiber" and np.all(v == np.round(v)) else nums(v)
        else:
            f[k] = rows(v)
    dims = [int(d) for d in g.dimensions] if hasattr(g, "dimensions") else None
    return {"P": rows(P), "dims": dims, "names": names, "f": f}


def record(R, op, fn, make, **fields):
    """Call the library and keep what make says about the result."""
    box = {}

    def go():
        box["shape"] = make(fn())
    R.call(op, go, shape=None, fatal=False, **fields)
    e = R.events[-1]
    if e["exc"] is None:
        e["shape"] = R.intern(box["shape"])


# ------------------------------------------------------------------- fibers
def vtk_fiber(R, F, label=None, res=None):
    kw = {} if label is None else {"index": label}
    r = dict(r=1, theta=8, z=20)
    if res is not None:
        kw.update(r_resolution=res[0], theta_resolution=res[1], z_resolution=res[2])
        r = dict(r=res[0], theta=res[1], z=res[2])
    rec = {k: num(F[k]) for k in "lbhxyzuvwGE"}
    record(R, "VtkFiber", lambda: fm.vtk_fiber(*[F[k] for k in "lbhxyzuvwGE"], **kw),
           lambda g: {"F": rec, "res": r, "label": label, "g": export(g)})


def some_fiber(rng, k):
    d = [None, (1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)][k % 7]
    if d is None:
        p = rng.uniform(-np.pi, np.pi)
        q = rng.uniform(-1.5, 1.5) if k % 2 else 0.
        d = (np.cos(p) * np.cos(q), np.sin(p) * np.cos(q), np.sin(q))
    F = dict(zip("uvw", map(float, d)))
    F.update(l=float(rng.uniform(0.5, 40)), b=float(rng.uniform(0.1, 3)), h=float(rng.uniform(0.1, 3)),
             x=float(rng.uniform(-20, 20)), y=float(rng.uniform(-20, 20)), z=float(rng.uniform(-20, 20)),
             G=float(rng.uniform(0.1, 9)), E=float(rng.choice([np.inf, 100., 2500.])))
    return F


@family("C30", 48)
def one_fiber(R, rng, k):
    F = some_fiber(rng, k)
    if k % 3 == 1:
        for a in "uvw":
            F[a] = float(F[a])
        F["z"] = F["x"] = 0.
    res = [None, (1, 8, 20), (2, 6, 5), (1, 4, 2), (3, 16, 7), (1, 2, 3), (1, 12, 40)][int(rng.integers(0, 7))]  # even: centered
    vtk_fiber(R, F, None if k % 4 == 0 else int(rng.integers(0, 1000)), res)
    # other angles in the plane
    F = some_fiber(rng, 0)
    vtk_fiber(R, F, k)


@family("C30", 2)
def default_fiber(R, rng, k):
    F = dict(l=25., b=1., h=1., x=0., y=0., z=0., u=1., v=0., w=0., G=1., E=np.inf)
    record(R, "VtkFiber", lambda: fm.vtk_fiber(**({} if k else {"index": 3})),
           lambda g: {"F": {a: num(F[a]) for a in "lbhxyzuvwGE"}, "res": dict(r=1, theta=8, z=20),
                      "label": None if k else 3, "g": export(g)})


@family("C30", 20)
def fiber_sets(R, rng, k):
    n = int(rng.integers(1, 5))
    if k % 4 == 0:
        R.mat("m", n=n, seed=k, psi=float(rng.choice([0., 0.5])), tensile=float(rng.choice([np.inf, 300.])))
    else:
        R.given("m", gen.mixed(rng, n, finite=bool(k % 2), tilt=0.5 * (k % 3 == 1),
                               angle=str(rng.choice(["any", "axis", "half"]))))
    if k % 3 == 2:
        # equal in some columns, not in others
        same = [c for c in "lbhxyzGE" if rng.random() < 0.5]
        R.edit("m", lambda m: [m.__setitem__(c, np.full(len(m), m[c].values[0])) for c in same], "same")
    m = R.live["m"]
    if k % 5 == 4:
        calls = []
        record(R, "VtkMat", lambda: fm.vtk_mat(m, func=lambda g, i: calls.append(int(i)), verbose=False), export,
               mat="m", np=NP)
    else:
        record(R, "VtkMat", lambda: fm.vtk_mat(m, verbose=False), export, mat="m", np=NP)
    res = (1, int(rng.choice([4, 6, 10])), int(rng.choice([2, 5])))
    record(R, "VtkMat", lambda: fm.vtk_mat(m, verbose=bool(k % 2), r_resolution=res[0], theta_resolution=res[1],
                                           z_resolution=res[2]), export,
           mat="m", np=(res[0] + 1) * (res[1] + 1) * res[2])


@family("C30", 1)
def no_fibers(R, rng, k):
    R.mat("m", n=0)
    m = R.live["m"]
    record(R, "VtkMat", lambda: fm.vtk_mat(m, verbose=False), export, mat="m", np=NP)
    record(R, "VtkMat", lambda: fm.vtk_mat(verbose=False), export, mat="m", np=NP)
    record(R, "VtkMat", lambda: fm.vtk_mat(), export, mat="m", np=NP)


# ------------------------------------------------------------------- meshes
def prepare(R, rng, k, periodic, n=None):
    n = n or int(rng.integers(1, 5))
    size = float(rng.choice([10., 20.]))
    df = gen.compact(rng, n, size=size, length=size * float(rng.choice([0.4, 0.8])), finite=bool(k % 3),
                     b=float(rng.choice([0.4, 1.])))
    if k % 4 == 1:
        p = rng.uniform(-np.pi, np.pi, n)
        df["u"], df["v"] = np.cos(p), np.sin(p)
    elif k % 4 == 2 and n > 1:
        # several nodes at the same place of a fiber
        p = rng.permutation(n) * np.pi / n + rng.uniform(-0.1, 0.1)
        s = rng.uniform(-1.5, 1.5, n)
        c = rng.uniform(-1., 1., 2)
        df["u"], df["v"] = np.cos(p), np.sin(p)
        df["x"], df["y"] = c[0] + s * df["u"], c[1] + s * df["v"]
        if k % 8 == 2:
            d = np.array(gen.AXES)[np.arange(n) % 2 + 2 * rng.integers(0, 2, n)].reshape(n, 3)
            df["u"], df["v"] = d[:, 0] * 1., d[:, 1] * 1.
            df["x"], df["y"] = 0.5 * (d[:, 0] != 0), 0.5 * (d[:, 1] != 0)
    R.given("m", df)
    R.net("N", "m", periodic=periodic)
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")


def nodal(rng, M, kind):
    n = len(M)
    if kind == 0:
        return rng.normal(size=n)
    if kind == 1:
        return np.arange(n) * 0.25 - 1.
    if kind == 2:
        return np.full(n, 0.75)
    a = np.zeros(n)
    a[int(rng.integers(0, n))] = 2.
    return a


def opt(a):
    return None if a is None else nums(a)


@family("C31", 32)
def fields(R, rng, k):
    """Nodal fields on a mesh; a periodic mesh is exported as if it were not, so that every
    fiber appears once."""
    prepare(R, rng, k, periodic=bool(k % 2), n=int(rng.integers(1, 4)))
    m, M = R.live["m"], R.live["M"]
    me = M.copy()
    me.attrs = dict(M.attrs, periodic=False)
    me = fm.Mesh(me)
    d = nodal(rng, M, int(rng.integers(0, 4))) if k % 4 != 3 else None
    r = nodal(rng, M, int(rng.integers(0, 4))) if d is not None and k % 3 else None
    f = nodal(rng, M, int(rng.integers(0, 4))) if k % 4 else None
    t = nodal(rng, M, int(rng.integers(0, 4))) if f is not None and k % 3 == 2 else None
    if k % 8 == 7:
        d = r = f = t = None
    # other resolutions
    res, n = {}, NP
    if k % 4 >= 2:
        a = (1, int(rng.choice([4, 6, 10])), int(rng.choice([2, 5, 30])))
        res = dict(zip(("r_resolution", "theta_resolution", "z_resolution"), a))
        n = (a[0] + 1) * (a[1] + 1) * a[2]

    def shape(g):
        g0 = fm.vtk_mesh(m, me, verbose=False, **res)
        return {"g": export(g), "g0": export(g0), "disp": opt(d), "rot": opt(r), "force": opt(f), "mom": opt(t),
                "np": n}
    if k % 2:
        args = dict(displacement=d, rotation=r, force=f, moment=t, **res)
        record(R, "VtkMesh", lambda: fm.vtk_mesh(m, me, verbose=False, **args), shape,
               mat="m", mesh="M", periodic=False)
    else:
        record(R, "VtkMesh", lambda: fm.vtk_mesh(m, me, d, r, f, t, verbose=False, **res), shape,
               mat="m", mesh="M", periodic=False)


@family("C31", 6)
def solved(R, rng, k):
    """The fields of a solution."""
    R.given("m", gen.bridges(rng, jitter=0.3, loads=1))
    R.net("N", "m", periodic=False)
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    R.solve("r", "m", "M", packing=1.5, coupling=0.99, lmin=0.01)
    m, M = R.live["m"], R.live["M"]
    K, C, u, f, F, H, Z, rl, mask, err = R.live["r"].res
    d, r = u(1.).reshape(-1, 2).T
    q, t = (f(1.) @ C).reshape(-1, 2).T

    def shape(g):
        return {"g": export(g), "g0": export(fm.vtk_mesh(m, M, verbose=False)),
                "disp": opt(d), "rot": opt(r), "force": opt(q), "mom": opt(t), "np": NP}
    record(R, "VtkMesh", lambda: fm.vtk_mesh(m, M, *u(1.).reshape(-1, 2).T, *(f(1.) @ C).reshape(-1, 2).T,
                                             verbose=False), shape, mat="m", mesh="M", periodic=False)


@family("C31", 1)
def nothing_to_export(R, rng, k):
    R.mat("m", n=0)
    R.net("N", "m")
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    m, M = R.live["m"], R.live["M"]
    e = np.zeros(0)

    def shape(g):
        return {"g": export(g), "g0": export(g), "disp": None, "rot": None, "force": None, "mom": None, "np": NP}
    for args in ((m, M), (), (m, M, e, e, e, e)):
        record(R, "VtkMesh", lambda: fm.vtk_mesh(*args, verbose=False), shape, mat="m", mesh="M", periodic=False)


# ----------------------------------------------------------- periodic exports
def lists(g):
    P = np.asarray(g.points, dtype=float)
    return P


def pairing(g, b, X):
    """Which points of the export g are which images of the points of b."""
    from scipy.spatial import cKDTree
    def key(h, P):
        f = h.point_data
        L = np.asarray(f["xyz"], dtype=float)
        lab = np.asarray(f["fiber"], dtype=float)[:, None]
        return np.c_[P, L, lab * 100.]
    G = key(g, np.asarray(g.points, dtype=float))
    tree = cKDTree(G) if len(G) else None
    tol = 0.5e-5 * (1 + X)
    Q = np.asarray(b.points, dtype=float)
    hits = []
    img = [None] * len(G)
    for a in (-1, 0, 1):
        for c in (-1, 0, 1):
            P = Q + [a * X, c * X, 0.]
            K = key(b, P)
            inside = np.all(np.abs(P[:, :2]) <= X + tol, axis=1)
            if tree is None:
                continue
            for k in np.flatnonzero(inside):
                found = tree.query_ball_point(K[k], tol)
                for q in found:
                    if img[q] is None:
                        img[q] = [int(k) + 1, a, c]
                if found:
                    hits.append([int(k) + 1, a, c, int(found[0]) + 1])
    return hits, img


@family("C32", 14, 60)
def periodic_export(R, rng, k):
    prepare(R, rng, k, periodic=True, n=1 + k % 2)
    m, M = R.live["m"], R.live["M"]
    me = M.copy()
    me.attrs = dict(M.attrs, periodic=False)
    args = () if k % 3 == 0 else (nodal(rng, M, 0), nodal(rng, M, 0)) if k % 3 == 1 else \
        (nodal(rng, M, 0), None, nodal(rng, M, 0), nodal(rng, M, 0))
    X = float(m.attrs["size"])
    res = {} if k % 5 < 3 else dict(theta_resolution=int(rng.choice([4, 6])), z_resolution=int(rng.choice([6, 31])))
    if k % 10 == 4:
        res["r_resolution"] = 2

    def shape(g):
        b = fm.vtk_mesh(m, fm.Mesh(me), *args, verbose=False, **res)
        hits, img = pairing(g, b, X)
        return {"g": export(g), "b": export(b), "hits": hits, "img": img,
                "cells": res.get("z_resolution", 20) - 1}
    record(R, "VtkMesh", lambda: fm.vtk_mesh(m, M, *args, verbose=False, **res), shape, mat="m", mesh="M", periodic=True)


@family("C32", 12)
def plain_export(R, rng, k):
    prepare(R, rng, k, periodic=False)
    m, M = R.live["m"], R.live["M"]
    args = () if k % 2 else (nodal(rng, M, 0),)
    res = {} if k % 3 else dict(theta_resolution=4, z_resolution=5)
    record(R, "VtkMesh", lambda: fm.vtk_mesh(m, M, *args, verbose=False, **res),
           lambda g: {"g": export(g), "np": 50 if res else NP}, mat="m", mesh="M", periodic=False)
