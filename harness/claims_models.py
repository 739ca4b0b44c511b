"""Replay of the cases which the models enumerate (spec/MC_*.tla)."""
import numpy as np

import pandas as pd

import gen
from claims import model
from claims_misc import FLAGS, MODULI, OPT_I, edit_panel, panel
from claims_net import check_event
from claims_parts import chain, part_event, part_of
from claims_solve import WELL, in_units, interpolate
from claims_stack import stack_system
from fm import System, fm, num


# ------------------------------------------------------------------ MC_Chain
def chain_set(rows):
    """Fiber set of rows <<x, y, axis, l, h, E>>, as MC_Chain reads them."""
    r = np.array([[x, y, l, h / 2., np.inf if E == 0 else E] for x, y, a, l, h, E in rows], dtype=float)
    d = np.array([gen.AXES[f[2]] for f in rows])
    size = 4. if len(rows) == 3 else 20.
    return gen.fibers(size, r[:, 2], r[:, 0], r[:, 1], np.arange(1, len(rows) + 1) * 1., 0., h=r[:, 3], G=2.,
                      E=r[:, 4], uvw=(d[:, 0], d[:, 1], d[:, 2]))


def replay_chain(R, rng, case):
    rows, script = case
    R.start()
    R.given("m", chain_set(rows))
    plain = {}          # unfiltered stack of a network, if nothing was stacked since
    for k, s in enumerate(script):
        out, op = "o%d" % (k + 1), s[0]
        if op == "net":
            R.net(out, "m", periodic=s[1], exact=True)
        elif op == "pairs":
            R.net(out, "m", periodic=False, pairs=np.array(s[2], dtype=int).reshape(-1, 2), full=s[1])
        elif op == "stack":
            ref = plain.get(s[1])
            kw = {}
            if s[2]:
                kw = dict(threshold=s[2] / 2.)
                if ref is not None:
                    R.put("k", R.live["m"].copy())
                    kw.update(ref=ref, refmat="k")
            elif ref is not None:
                kw = dict(again=ref)
            R.stack(out, "m", s[1], **kw)
            plain = {k: v for k, v in plain.items() if k == s[1]}
            if not s[2]:
                plain[s[1]] = out
        elif op == "mesh":
            R.mesh(out, s[1], "m")
        elif op == "stiffness":
            n = 2 * len(R.live[s[1]])
            R.stiffness(out, "m", s[1], lmin=0.01, coupling=s[2] / 100.,
                        fields=[rng.normal(size=n), rng.integers(-3, 4, n).astype(float)])
        elif op == "constraint":
            R.constraint(out, "m", s[1])
        elif op == "solve":
            first = script[k - 1][0] != "solve"
            R.solve(out, "m", s[1], small=True, packing=s[2] / 10., itermax=5,
                    ref=None if first else "o%d" % k, prefix=not first, **WELL)


model("C04 C05 C06 C07 C10 C11 C12 C13 C14 C16 C17 C34", "MC_Chain", "MC_ChainG", "MC_ChainGx",
      limit=(120, 3000), batch=8)(replay_chain)
model("C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C38", "MC_Chain", "MC_ChainM", "MC_ChainMx",
      limit=(24, 600), batch=3)(replay_chain)


# ------------------------------------------------------------------ MC_Units
def replay_units(R, rng, case):
    """A problem, and the same in other units and another frame."""
    rows, (a, b, c, d, frame) = case
    lam, mu = a / b, c / d
    R.start()
    base = chain_set(rows)
    o = dict(packing=1.5, itermax=5, coupling=0.99)
    for i, df in (("", base), ("1", in_units(base, lam, mu, {"mirror": "mirror x"}.get(frame, frame)))):
        R.given("m" + i, df)
        R.net("N" + i, "m" + i, periodic=False)
        R.stack("S" + i, "m" + i, "N" + i)
        R.mesh("M" + i, "S" + i, "m" + i)
        f = lam if i else 1.
        rel = dict(mat="m", mesh="M", run="r", lam=num(lam), mu=num(mu), o=opts) if i else None
        R.solve("r" + i, "m" + i, "M" + i, rel=rel, lmin=0.01 * f, tol=1e-6 * f, **o)
        opts = R.events[-1]["o"]


model("C36", "MC_Units", "MC_Units", "MC_Unitsx", limit=(32, 400), batch=2)(replay_units)


# ------------------------------------------------------------------ MC_Parts
def replay_parts(R, rng, case):
    """Two unconnected parts, together and alone."""
    rows, turn = case
    R.start()
    df = chain_set([r[:6] for r in rows])
    df.attrs["size"] = 80.
    o = dict(WELL, packing=1.5, itermax=6)
    whole = chain(R, "", df, False, options=o, jam=True)
    for p in (1, 2):
        d, l = part_of(df, [i for i, r in enumerate(rows) if r[6] == p])
        rev = [turn == "all" or (turn == "odd" and i % 2 == 1) for i in l]
        d.loc[rev, ["u", "v", "w"]] *= -1
        part_event(R, chain(R, str(p), d, False, options=dict(o, packing=2.), jam=True), whole, l, o, rev)


model("C40 C41", "MC_Parts", "MC_Parts", "MC_Partsx", limit=(48, 400), batch=2)(replay_parts)


# ---------------------------------------------------------------- MC_Lattice
MOVES = {"turn": lambda x, y, d: (-y, x, (d + 1) % 4),
         "mirror": lambda x, y, d: (-x, y, (6 - d) % 4),
         "reverse": lambda x, y, d: (x, y, (d + 2) % 4)}


def lattice_frame(rng, unit):
    """Boxes of size 4, of the given unit, from integer fibers <<x, y, axis, l>>."""
    def make(rows, z=None):
        r = np.array(rows, dtype=float)
        df = gen.given_lattice(4., rows)
        df.z = np.sort(rng.integers(-8, 9, len(rows))) * 0.25 if z is None else z
        df[["l", "b", "h", "x", "y", "z"]] *= unit
        df.attrs["size"] = 4. * unit
        assert len(r) == len(df)
        return df
    return make


def replay_lattice(*modes):
    def replay(R, rng, cases):
        """The pairs of all cases as one fiber set."""
        R.start()
        fs = [list(f) for c in cases for f in c]
        R.given("m", lattice_frame(rng, float(rng.choice([1., 0.25, 8., 2. ** -20])))(fs))
        for p in modes:
            R.net("P" if p else "N", "m", periodic=p, exact=True)
    return replay


def replay_frames(R, rng, cases):
    """The same pairs in another frame: moves of the model, in any order."""
    R.start()
    n = 2 * len(cases)
    fs = [list(f) for c in cases for f in c]
    make = lattice_frame(rng, 1.)
    R.given("m", make(fs))
    R.net("N", "m", periodic=False, exact=True)
    R.net("P", "m", periodic=True, exact=True)
    for j in range(3):
        gs, rev, shifted = [list(f) for f in fs], [False] * n, False
        for kind in rng.choice(["turn", "mirror", "reverse", "translate", "across"], int(rng.integers(1, 4))):
            t = rng.integers(-3, 4, 2)
            for i, (x, y, d, a) in enumerate(gs):
                if kind in ("translate", "across"):
                    shifted = True
                    if kind == "translate":
                        x, y = (x + t[0] + 2) % 4 - 2, (y + t[1] + 2) % 4 - 2
                    x, y = (-x if abs(x) == 2 and rng.random() < 0.5 else x,
                            -y if abs(y) == 2 and rng.random() < 0.5 else y)
                elif kind != "reverse" or rng.random() < 0.5:
                    x, y, d = MOVES[kind](x, y, d)
                    rev[i] ^= kind == "reverse"
                gs[i] = [int(x), int(y), int(d), a]
        perm = rng.permutation(n) if rng.random() < 0.5 else np.arange(n)    # new label of old fiber
        unit = float(rng.choice([1., 0.5, 64.]))
        order = np.argsort(perm)
        U = lattice_frame(rng, unit)([gs[i] for i in order], rng.uniform(-5, 5, n) if rng.random() < 0.5 else None)
        R.given("U%d" % j, U)
        tr = {"perm": [int(p) for p in perm], "rev": [bool(r) for r in rev],
              "scale": "#" + unit.hex(), "exact": True}
        for p in ([True] if shifted else [False, True]):
            R.net("M%d%d" % (j, p), "U%d" % j, periodic=p, exact=True,
                  rel={"mat": "m", "net": "P" if p else "N", "tr": tr})


for _c, _f in (("C04", replay_lattice(False)), ("C05", replay_lattice(True)), ("C07", replay_lattice(False, True)),
               ("C06", replay_lattice(False, True)), ("C08", replay_frames)):
    _n = 12 if _c == "C08" else 25
    model(_c, "MC_Lattice", "MC_Lattice", "MC_Latticex", limit=(24 * _n, 400 * _n), batch=_n, group=True)(_f)
model("C05 C08", "MC_Lattice", "MC_Lattice2", "MC_LatticeS", replay=False)


# ------------------------------------------------------------------- MC_Mesh
def net_of_rows(total, rows):
    """The network MC_Mesh!NetAt."""
    r = np.array(rows, dtype=float).reshape(-1, 4)
    A, B, s, t = r.T
    df = pd.DataFrame(np.c_[A, B, s, t, 10 * A + s, s - A, A, 10 * B + t, t - B, B],
                      columns=["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"])
    df = df.astype({"A": int, "B": int})
    df.attrs = {"n": total, "size": 40., "periodic": False, "note": 7}
    return df


def replay_mesh(R, rng, case):
    total, rows = case
    R.start()
    n = np.zeros(total)
    R.given("m", gen.fibers(40., n + 4., n, n, np.arange(total) + 1., 0., G=2., E=60.))
    df = net_of_rows(total, rows)
    R.put("N", fm.Net(df))
    R.mesh("M", "N", "m")


def replay_mesh_check(R, rng, case):
    """The mesh of the case, and one with an exchange in its links or beams."""
    R.start()
    mesh = fm.Mesh(fm.Net(net_of_rows(*case)))
    df = pd.DataFrame({c: mesh[c].values.copy() for c in mesh.columns})
    df.attrs = dict(mesh.attrs)
    check_event(R, "Mesh", df, "mesh")
    for k in range(2):
        U = df.copy()
        U.attrs = dict(df.attrs)
        a, b = df["beam"].values.copy(), df["constraint"].values.copy()
        i, j = rng.choice(len(df), 2, replace=False)
        if k:
            a[[i, j]] = a[[j, i]]
        else:
            p, q = b[i], b[j]
            b[[i, j, p, q]] = q, p, j, i
        U["beam"], U["constraint"] = a, b
        check_event(R, "Mesh", U, "exchange")


for _v, _q, _t in (("A", 60, 1500), ("B", 100, 3000), ("C", 80, 3000)):
    model("C16 C17", "MC_Mesh", "MC_Mesh" + _v, "MC_Mesh" + _v + "x", limit=(_q, _t), batch=20)(replay_mesh)
    model("C18", "MC_Mesh", "MC_Mesh" + _v, "MC_Mesh" + _v + "x", limit=(_q // 2, _t), batch=20)(replay_mesh_check)


# ---------------------------------------------------------------- MC_Element
MATERIALS = {1: [(1., 1., 2., 60.), (1., 1., 2., 60.)],
             2: [(2., 1., 2., 1.), (1., 3., 0.5, np.inf)],
             3: [(1., 0.5, 3., np.inf), (0.25, 2., 5., 7.)]}


def element_mesh(R, rng, con, kind, finite=False):
    """The mesh of MC_Element."""
    m = np.array(MATERIALS[kind])
    if finite:
        m[:, 3] = np.where(np.isinf(m[:, 3]), rng.uniform(5., 900., 2), m[:, 3])
    R.start()
    R.given("m", gen.fibers(40., 4., [0., 0.], [0., 0.], [3., 6.], 0., b=m[:, 0], h=m[:, 1], G=m[:, 2], E=m[:, 3]))
    row = lambda a, b, s, t: [a, b, s, t, a + s, a, 3. * (a + 1), b + t, b, 3. * (b + 1)]
    rows = [row(0, 0, 2., -2.), row(1, 1, 2., -2.)] + [row(0, 1, s / 2., t / 2.) for s, t in con]
    df = pd.DataFrame(rows, columns=["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"])
    df = df.astype({"A": int, "B": int})
    df.attrs = {"n": 2, "size": 40., "periodic": False}
    R.put("N", fm.Net(df))
    R.mesh("M", "N", "m")


def element_options(raw):
    o = {"coupling": raw[2] / 100.}
    for k, v in zip(("lmin", "lmax"), raw):
        if v >= 0:
            o[k] = v / 100.
    return o


def replay_stiffness(R, rng, case):
    con, kind, raw = case
    element_mesh(R, rng, con, kind)
    R.stiffness("K", "m", "M", **element_options(raw))


def replay_form(R, rng, case):
    con, kind, raw = case
    element_mesh(R, rng, con, kind, finite=True)
    n = 2 * len(R.live["M"])
    s = R.live["M"].s.values
    turn = np.ones(n)
    turn[0::2] = s
    R.stiffness("K", "m", "M", fields=[turn, rng.normal(size=n), rng.integers(-2, 3, n).astype(float)],
                **element_options(raw))


def replay_constraint(R, rng, case):
    con, kind, raw = case
    element_mesh(R, rng, con, kind)
    R.constraint("C", "m", "M")
    R.edit("M", lambda M: M.__setitem__("z", M["z"] + rng.integers(0, 3, len(M)) * 0.5), "z")
    R.constraint("C2", "m", "M")


for _c, _f, _n in (("C19", replay_stiffness, 306), ("C20", replay_form, 150), ("C21", replay_constraint, 100)):
    model(_c, "MC_Element", "MC_Element", "MC_Elementx", limit=(_n, 2400), batch=20)(_f)
model("C19 C20", "MC_Element", "MC_ElementO", "MC_ElementOx", replay=False)


# ------------------------------------------------------------------- MC_Plot
@model("C37", "MC_Plot", "MC_Plot", "MC_Plotx", limit=(320, 4000), batch=10)
def replay_plot(R, rng, case):
    con, closed, infinite, perm = case
    element_mesh(R, rng, con, 1)
    R.stiffness("K0", "m", "M", coupling=0.99)
    R.constraint("C0", "m", "M")
    K, u, F, du, dF = R.live["K0"].K
    C, f, H, df, dH = R.live["C0"].C
    n, m = K.shape[0], C.shape[0]
    u = np.array([(i * i) % 5 - 2. for i in range(1, n + 1)])
    gap = {"one": lambda r: 1., "infinite": lambda r: np.inf, "negative": lambda r: -1.,
           "mixed": lambda r: [-1., np.inf, 0.01][r % 3]}[infinite]
    H = C @ u + np.array([0. if r in closed else gap(r) for r in range(1, m + 1)])
    order = {"none": None, "same": np.arange(n + m), "reverse": np.arange(n + m)[::-1],
             "contacts first": np.r_[np.arange(n, n + m), np.arange(n)],
             "odd": np.r_[np.arange(1, n + m, 2), np.arange(0, n + m, 2)]}[perm]
    R.put("K", System(K=(K, u, F, du, dF)))
    R.put("C", System(C=(C, f, H, df, dH)))
    R.plot("K", "C", perm=order, own_axes=bool(rng.integers(0, 2)), solvable=False)


# --------------------------------------------------------------- MC_Sampling
@model("C29", "MC_Sampling", "MC_Sampling", "MC_Samplingx", limit=(900, 20000), batch=60)
def replay_sampling(R, rng, case):
    y, wide, size, kind = case
    v = np.array(y, dtype=float)
    if wide == 0:
        Y = v if rng.random() < 0.7 else v.astype(int)
    elif wide == 1:
        Y = np.c_[v, np.full(len(v), 3.)]
        Y = Y.astype(int) if rng.random() < 0.2 else Y[:, :, None] if rng.random() < 0.2 else Y
    else:
        Y = np.c_[np.full(len(v), np.inf), v]
    ask = [0., 1. / 7, 1. / 3, 0.5, 5. / 6, 1., 1.5][:6 + int(rng.integers(0, 2))]
    interpolate(R, Y, size or None, "previous" if kind else None, [] if size == 1 else ask, "model")


# --------------------------------------------------------------- MC_Settings
def decode(name, v):
    if name in FLAGS:
        return bool(v)
    if v == -1:
        return np.inf if name in MODULI else None
    return int(v) if name == "n" or name in OPT_I else float(v)


@model("C33", "MC_Settings", "MC_Settings", "MC_Settingsx", limit=(800, 20000), batch=50)
def replay_settings(R, rng, case):
    pair, args, hist = case
    R.start()
    s = panel(R, {k: decode(k, v) for k, v in zip(pair, args) if v != -2})
    for kind, a, v, b, w in hist:
        if kind == "switch":
            edit_panel(R, s, "switch", name=a, value=v)
        elif kind == "field":
            edit_panel(R, s, "field", name=a, value=decode(a, v))
        elif kind == "call":
            edit_panel(R, s, "call", pairs=[(a, decode(a, v)), (b, decode(b, w))])
        else:
            edit_panel(R, s, "set", pairs=[(a, decode(a, v))])


# ---------------------------------------------------------------- MC_Checker
def frame_of(T):
    """The table of a record of the specification."""
    n = T["len"]
    df = pd.DataFrame({c: np.array(T["c"][c], dtype=int if T["dtype"][c] == "int" else float) for c in T["cols"]},
                      columns=T["cols"])
    df.index = np.array(T["index"], dtype=int)
    assert len(df) == n
    df.attrs = dict(T["attrs"])
    return df


def replay_checker(classes):
    def replay(R, rng, case):
        T, kinds = case
        for c in classes:
            check_event(R, c, frame_of(T), " ".join(kinds))
    return replay


for _c, _k, _cls in (("C03", "Mat", ["Mat"]), ("C09", "Net", ["Net", "Stack"]), ("C18", "Mesh", ["Mesh"])):
    for _v, _q, _t in (("0", 400, 600), ("1", 400, 2000), ("2", 300, 8000)):
        _m = "MC_Checker" + _k + _v
        model(_c, "MC_Checker", _m, _m + "x", limit=(_q, _t), batch=20)(replay_checker(_cls))
        if _v == "1":
            model("C35", "MC_Checker", _m, _m + "x", limit=(60, 2000), batch=20)(replay_checker(_cls))


# ------------------------------------------------------------------ MC_Stack
def replay_stack(forces):
    def replay(R, rng, case):
        """Fibers which all cross, of which only the pairs of the case are connected."""
        h, pairs = case
        n = len(h)
        R.start()
        p = np.linspace(0., 2.5, n) + rng.uniform(0, 0.1)
        m = rng.random() < 0.5
        df = gen.fibers(20., rng.uniform(4., 9., n) if m else 6., np.zeros(n), np.zeros(n), rng.permutation(n) * 3. - 4,
                        p, h=np.array(h, dtype=float), b=rng.uniform(0.1, 5., n) if m else 1.)
        R.given("m", df)
        q = [[a - 1, b - 1] for a, b in pairs] + ([[i, i] for i in range(n)] if rng.random() < 0.7 else [])
        R.net("N", "m", periodic=False, pairs=np.array(q, dtype=int).reshape(-1, 2))
        if forces:
            stack_system(R, "m", "N")
            return
        R.stack("S", "m", "N")
        R.put("k", R.live["m"].copy())
        R.stack("S2", "m", "N", again="S")
        R.stack("T", "m", "N", threshold=float(rng.choice([1., 2., 3., 4.])), ref="S", refmat="k")
    return replay


model("C11 C12 C13 C14", "MC_Stack", "MC_Stack", "MC_Stackx", limit=(160, 6000), batch=10)(replay_stack(False))
model("C15", "MC_Stack", "MC_Stack", "MC_Stackx", limit=(160, 6000), batch=10)(replay_stack(True))
model("C11 C12 C13 C15", "MC_Stack", "MC_Stack3", replay=False)


# -------------------------------------------------------------------- MC_Gen
@model("C01 C02", "MC_Gen", "MC_Gen", "MC_Genx", limit=(1200, 12000), batch=60)
def replay_generations(R, rng, hist):
    R.start()
    theta = (0., float(rng.uniform(0.1, 3.)), float(rng.choice([np.pi, 4., 2 * np.pi])))
    psi = (0., float(rng.uniform(0.05, 3.)))
    names = []
    for k, s in enumerate(hist):
        if s[0] == "draw":
            np.random.rand()
        elif s[0] == "seed":
            np.random.seed(1)
        elif s[0] == "edit":
            R.edit(names[-1], lambda m: m.__setitem__("x", m["x"] * 0.5), "x")
        else:
            n, size, th, ps, dim, seed = s
            names.append("m%d" % k)
            R.mat(names[-1], n=n, size=float(size), theta=theta[th], psi=psi[ps], length=8. if dim else 5., width=1.,
                  thickness=1., shear=1., tensile=100. if dim else np.inf, seed=None if seed < 0 else seed)


# ----------------------------------------------------------------- MC_Render
def replay_render(c):
    def replay(R, rng, case):
        """Two fibers with nodal fields, exported."""
        import claims_vtk as V
        fs, per, giv = case
        R.start()
        D = [(1., 0., 0.), (0., 1., 0.), (.6, .8, 0.), (-.8, .6, 0.), (0., -1., 0.), (-1., 0., 0.)]
        d = np.array([D[f[3] - 1] for f in fs])
        r = np.array(fs, dtype=float)
        df = gen.fibers(6., r[:, 2], r[:, 0] / 2, r[:, 1] / 2, np.arange(1, len(fs) + 1) * 1., 0., b=r[:, 4] / 2,
                        h=r[:, 5] / 4, G=2., E=np.array([np.inf, 50.]), uvw=(d[:, 0], d[:, 1], d[:, 2]))
        R.given("m", df)
        m = R.live["m"]
        if c == "C30":
            V.record(R, "VtkMat", lambda: fm.vtk_mat(m, verbose=False, theta_resolution=8, z_resolution=3), V.export,
                     mat="m", np=54)
            return
        R.net("N", "m", periodic=per)
        R.stack("S", "m", "N")
        R.mesh("M", "S", "m")
        M = R.live["M"]
        p = [[-2, 1, 0, 3, -1, 2], [1, -1, 2, 0, 1, -2], [0, 2, 5, -3, 4, 1], [1, 0, -2, 1, 3, -1]]
        a = [np.resize(p[k], len(M)).astype(float) if g else None for k, g in enumerate(giv)]
        b = M.copy()
        b.attrs = dict(M.attrs, periodic=False)
        X = float(m.attrs["size"])
        res = dict(z_resolution=int(rng.choice([6, 20])))
        n = 18 * res["z_resolution"]
        if per:
            def shape(g):
                s = fm.vtk_mesh(m, fm.Mesh(b), *a, verbose=False, **res)
                hits, img = V.pairing(g, s, X)
                return {"g": V.export(g), "b": V.export(s), "hits": hits, "img": img, "cells": res["z_resolution"] - 1}
        else:
            def shape(g):
                return {"g": V.export(g), "g0": V.export(fm.vtk_mesh(m, M, verbose=False, **res)), "np": n,
                        **{k: V.opt(v) for k, v in zip(("disp", "rot", "force", "mom"), a)}}
        V.record(R, "VtkMesh", lambda: fm.vtk_mesh(m, M, *a, verbose=False, **res), shape,
                 mat="m", mesh="M", periodic=per)
    return replay


for _c, _n in (("C30", 40), ("C31", 24), ("C32", 12)):
    model(_c, "MC_Render", "MC_Render", "MC_Renderx", limit=(_n, 60), batch=4)(replay_render(_c))
