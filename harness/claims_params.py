"""C42: one set of parameters for the whole chain."""
import hashlib
import json
import os

import numpy as np
import scipy as sp

from claims import family, model
from claims_misc import Grid
from fm import Recorded, Run, System, fm

VALUES = {"none": None, "yes": True, "no": False, "pi": np.pi, "pi/2": 0.5 * np.pi, "inf": np.inf}
INTS = ("n", "seed", "itermax", "interp_size")
# places of the parameters of a step in its documented signature (after the objects)
PLACES = {"Mat": ["n", "length", "width", "thickness", "size", "theta", "psi", "shear", "tensile", "seed"],
          "Net": ["periodic"], "Stack": ["threshold"], "Mesh": [], "Stiffness": ["lmin", "lmax", "coupling"],
          "Constraint": [], "Solve": []}
OBJECTS = {"Mat": "", "Net": "m", "Stack": "mN", "Mesh": "S", "Stiffness": "mM", "Constraint": "mM", "Solve": "mM"}
OUT = {"Mat": "m", "Net": "N", "Stack": "S", "Mesh": "M", "Stiffness": "K", "Constraint": "C", "Solve": "r"}


def value(name, v):
    if v in VALUES:
        return VALUES[v]
    return int(v) if name in INTS else float(v)


def read(pairs):
    return {k: value(k, v) if k in fm.Settings().__dict__ else VALUES.get(v, v) for k, v in pairs}


def step(s, objects, args, kw, size):
    o = objects
    if s == "Mat":
        return fm.Mat(*args, **kw)
    if s in ("Net", "Stack", "Mesh"):
        return getattr(fm, s)(*o, *args, **kw)
    if s == "Stiffness":
        return System(K=fm.stiffness(*o, *args, **kw))
    if s == "Constraint":
        return System(C=fm.constraint(*o, *args, **kw))
    return Run(fm.solve(*o, *args, **kw), o[1], size)


def unfold(defs):
    """Definition numbers to terms."""
    out = [None]
    for head, args, params in defs:
        out.append((head, tuple(out[a] for a in args), tuple(map(tuple, params))))
    return out


NAMES = {}


def short(term):
    """A short name of a term, the same for equal terms."""
    return "%s %d" % (term[0][0], NAMES.setdefault(term, len(NAMES)))


@model("C42", "MC_Params", "MC_Params", limit=(60, 3000), batch=20)
@model("C42", "MC_Params", "MC_ParamsS", limit=(48, 1200), batch=8, workers=1,
       args=("-simulate", "num=48" if os.environ.get("VERIF_TIER") != "thorough" else "num=1200", "-depth", "20",
             "-seed", os.environ.get("VERIF_SEED", "1")))
def replay_params(R, rng, case):
    hist, defs = case
    terms = unfold(defs)
    R.start()
    panel = fm.Settings(n=5, tensile=100., lmin=0.01, coupling=0.99, packing=1.2, verbose=False)
    size = None
    for k, (s, passed, way, heap) in enumerate(hist):
        if s == "set":
            p = read(passed)
            size = p.get("interp_size", size)
            p = {k: v / np.pi if k == "theta" else v for k, v in p.items()}
            if k % 2:
                panel(**p)
            else:
                for name, v in p.items():
                    panel[name] = v
        else:
            o = [R.live[x] for x in OBJECTS[s]]
            args, kw = [], read(passed)
            if way == "all":
                kw = {name: panel[name] for name in panel.keys()} if k % 2 else dict(**panel)
            elif way == "places":
                args = [kw.pop(p) if p in kw else 0. for p in PLACES[s]]
            if s == "Mat":
                R.live.clear()
            R.call("Step", lambda: step(s, o, args, kw, size), out=OUT[s], limit=300, stage=s, way=way)
        R._push({"op": "Terms",
                 "terms": {x: short((("thick",), terms[t], terms[d]) if t else terms[d]) for x, (d, t) in heap.items()}})


class Digest(Recorded):
    """A compaction, in short."""

    def __init__(self, res):
        K, C, u, f, F, H, Z, rl, mask, err = res
        h = hashlib.sha1(repr((K.shape, C.shape)).encode())
        for A in (K, C):
            h.update(np.ascontiguousarray(sp.sparse.coo_matrix(A).data).tobytes())
        self.steps = len(rl.t)
        for t in np.linspace(0, 1, self.steps):
            for x in (u, f, F, H, Z, rl, mask):
                h.update(np.asarray(x(t), dtype=float).tobytes())
        self.digest = h.hexdigest()

    def project(self):
        return {"digest": self.digest, "steps": self.steps}


def same(R, names, term):
    """By the documentation these objects have equal contents."""
    R._push({"op": "Terms", "terms": {x: term if x in names else "object %d %s" % (len(R.events), x) for x in R.live}})


@family("C42", 3, 12)
def long_defaults(R, rng, k):
    """The documented defaults of the solver, in runs that reach them."""
    R.start()
    n, length, packing = [(60, 25., 4.), (230, 10., 7.), (12, 25., 1.5)][k % 3]
    m = fm.Mat(n, length=length, size=50., tensile=100., seed=int(rng.integers(0, 1000)))
    M = fm.Mesh(fm.Stack(m, fm.Net(m)))
    o = dict(lmin=0.01, coupling=0.99, verbose=False, packing=packing)
    spelled = [dict(), dict(itermax=1000), dict(tol=1e-6, errtol=1e-6, perm=None, solve=sp.sparse.linalg.spsolve),
               dict(interp_size=None, itermax=1000, tol=1e-6, errtol=1e-6, periodic=True, threshold=None, n=n)]
    runs = ["r%d" % j for j in ([0, 1] if k % 3 == 1 else range(4))]
    for x in runs:
        R.call("Step", lambda: Digest(fm.solve(m, M, **o, **spelled[int(x[1])])), out=x, limit=300,
               stage="Solve", way=x)
    same(R, runs, "run %d" % len(R.events))
    if k % 3 == 2:
        # nothing but the objects is given
        for j, kw in enumerate((dict(), dict(lmin=None), dict(lmax=None, coupling=1., length=3., itermax=7))):
            R.call("Step", lambda: System(K=fm.stiffness(m, M, **kw)), out="K%d" % j, stage="Stiffness", way="%d" % j)
        same(R, ["K0", "K1", "K2"], "stiffness %d" % len(R.events))


@family("C42", 6)
def one_fiber(R, rng, k):
    """Drawing a fiber with all parameters, or only its own."""
    R.start()
    p = fm.Settings(verbose=False)
    own = dict(length=[25., 80., 0.5][int(rng.integers(0, 3))] if k % 2 else 80., width=float(rng.choice([1., 2.])),
               thickness=float(rng.choice([1., 0.25])), shear=float(rng.choice([1., 3.])),
               tensile=float(rng.choice([np.inf, 200.])))
    for name, v in own.items():
        p[name] = v
    default = dict(length=25., width=1., thickness=1., x=0., y=0., z=0., u=1., v=0., w=0., shear=1., tensile=np.inf,
                   index=None, r_resolution=1, theta_resolution=8, z_resolution=20)
    place = dict(zip("xyz", rng.integers(-4, 5, 3) * 0.5), index=int(rng.integers(0, 9)), r_resolution=1 + k % 3,
                 theta_resolution=[8, 6, 4][k % 3], z_resolution=[20, 3, 5][k % 3])
    place.update(zip("uvw", [(1., 0., 0.), (0., 1., 0.), (0.6, 0., 0.8)][k % 3]))
    full = dict(own, **place)
    few = {a: b for a, b in full.items() if b != default[a]}
    ways = {"all": lambda: fm.vtk_fiber(**place, **p), "own": lambda: fm.vtk_fiber(**full),
            "few": lambda: fm.vtk_fiber(**few), "places": lambda: fm.vtk_fiber(*[full[a] for a in default]),
            "strange": lambda: fm.vtk_fiber(**full, n=3, psi=1., seed=None, colour="red", packing=9.)}
    for way, f in ways.items():
        R.call("Step", lambda: Grid(f()), out=way, stage="Fiber", way=way)
    same(R, list(ways), "fiber %d" % len(R.events))
