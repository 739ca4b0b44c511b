"""C39: every step refuses ill-formed arguments."""
import numpy as np
import pandas as pd

import gen
from claims import family, model
from claims_mesh import any_mesh, mesh_defect
from claims_misc import plain_copy
from claims_net import benign, mat_defect, net_defect
from claims_solve import WELL
from fm import fm, quiet, Timeout

STAGES = {
    "Net": (["Mat"], lambda m: fm.Net(m, periodic=False)),
    "PeriodicNet": (["Mat"], lambda m: fm.Net(m)),
    "Stack": (["Mat", "Net"], lambda m, n: fm.Stack(m, n)),
    "StackSystem": (["Mat", "Net"], lambda m, n: fm.Stack.constraint(m, n)),
    "StackForces": (["Mat", "Net"], lambda m, n: fm.Stack.solve(m, n)),
    "Mesh": (["Net"], lambda n: fm.Mesh(n)),
    "Stiffness": (["Mat", "Mesh"], lambda m, M: fm.stiffness(m, M, **WELL)),
    "Constraint": (["Mat", "Mesh"], lambda m, M: fm.constraint(m, M)),
    "Solve": (["Mat", "Mesh"], lambda m, M: fm.solve(m, M, packing=1.2, itermax=3, verbose=False, **WELL)),
    "VtkMat": (["Mat"], lambda m: fm.vtk_mat(m, verbose=False)),
    "VtkMesh": (["Mat", "Mesh"], lambda m, M: fm.vtk_mesh(m, M, verbose=False)),
}


def attempt(R, stage, names, sane):
    """Try one step on the objects of these names; the result is thrown away."""
    classes, fn = STAGES[stage]
    args = [R.live[a] for a in names]
    exc, msg = None, ""
    try:
        with quiet(60):
            fn(*args)
    except Timeout:
        exc = "Timeout"
    except Exception as x:  # noqa: BLE001
        exc, msg = type(x).__name__, str(x)[:100]
    R._push({"op": "Attempt", "stage": "Net" if stage == "PeriodicNet" else stage, "exc": exc, "msg": msg,
             "sane": bool(sane), "args": [{"cls": c, "name": a} for c, a in zip(classes, names)]})


def chain(R, rng, k):
    any_mesh(R, rng, k, 4, stacked=True)
    R.put("net", R.live["N"])
    return {"Mat": "m", "Net": "S", "Mesh": "M"}


def typed(cls, df):
    """An object of the class which holds this table, whatever it is worth (as after edits by the user)."""
    o = getattr(fm, cls).__new__(getattr(fm, cls))
    pd.DataFrame.__init__(o, df)
    o.attrs = dict(df.attrs)
    return o


DEFECTS = {"Mat": mat_defect, "Net": net_defect, "Mesh": mesh_defect}


@family("C39", 40)
def refusals(R, rng, k):
    """One table of a chain is changed, and every step that takes it is tried."""
    names = chain(R, rng, k)
    cls = ["Mat", "Net", "Mesh"][k % 3]
    for j in range(4):
        good = R.live[names[cls]]
        df = plain_copy(good)
        kind = int(rng.integers(0, 5))
        sane = kind == 0
        if sane:
            df = benign(rng, df)
        for _ in range(0 if sane else kind % 2 + 1):
            df = DEFECTS[cls](rng, df)
        R.put(names[cls], typed(type(good).__name__, df))
        for stage, (classes, _) in STAGES.items():
            if cls in classes:
                # (drawing takes its time)
                if stage.startswith("Vtk") and sane and j:
                    continue
                attempt(R, stage, [names[c] for c in classes], sane)
        R.put(names[cls], good)


@family("C39", 6)
def acceptances(R, rng, k):
    """Every step takes what the library makes, again and again."""
    names = chain(R, rng, k)
    for stage in rng.permutation(list(STAGES)):
        attempt(R, str(stage), [names[c] for c in STAGES[str(stage)][0]], True)
    for n in (0, 1):
        R.given("m", gen.mixed(rng, n, size=10., finite=True))
        R.net("N", "m", periodic=False)
        R.stack("S", "m", "N")
        R.mesh("M", "S", "m")
        for stage in ("Net", "PeriodicNet", "Stack", "Mesh", "Stiffness", "Constraint"):
            attempt(R, stage, [names[c] for c in STAGES[stage][0]], True)


@model("C39", "MC_Stage", "MC_Stage", limit=(300, 6000), batch=10)
def replay_stages(R, rng, hist):
    """Histories of damages, repairs and attempts."""
    R.start()
    d = rng.uniform(-1, 1)
    R.given("m", gen.fibers(10., [4., 4.], [0., 1.], [0., 0.], [0., 1.], [d, d + 1.3], G=2., E=9.))
    R.net("N", "m", periodic=False)
    R.stack("S", "m", "N")
    R.mesh("M", "S", "m")
    column = dict(m="b", N="sB", S="sB", M="beam")
    attribute = dict(m="size", N="periodic", S="size", M="n")
    real = dict(Restack=("Stack", "mS"), NetMesh=("Mesh", "N"), Net=("Net", "m"), Stack=("Stack", "mN"),
                StackSystem=("StackSystem", "mN"), StackForces=("StackForces", "mS"), Mesh=("Mesh", "S"),
                Stiffness=("Stiffness", "mM"), Constraint=("Constraint", "mM"), Solve=("Solve", "mM"),
                VtkMat=("VtkMat", "m"), VtkMesh=("VtkMesh", "mM"))
    was = {}

    def damage(x, kind):
        def f(t):
            if kind == "column":
                t.drop(columns=column[x], inplace=True)
            elif kind == "attribute":
                del t.attrs[attribute[x]]
            elif kind == "labels":
                t.index = [7] + list(range(1, len(t)))
            elif x == "m":
                t["l"] = [4., 0.]
            elif x == "M":
                t["constraint"] = np.r_[len(t) - 1, t["constraint"].values[1:]]
            else:
                t["A"] = np.r_[-1, t["A"].values[1:]]
        return f
    hurt = set()
    for s in hist:
        if s[0] == "damage":
            was[s[1]] = typed(type(R.live[s[1]]).__name__, R.live[s[1]].copy())
            R.edit(s[1], damage(s[1], s[2]), s[2])
            hurt.add(s[1])
        elif s[0] == "mend":
            R.put(s[1], was[s[1]])
            hurt.discard(s[1])
        else:
            stage, names = real[s[1]]
            attempt(R, stage, list(names), not hurt & set(names))
