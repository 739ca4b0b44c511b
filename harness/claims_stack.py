"""C11 - C15: stacking."""
import numpy as np

import gen
from claims import family
from fm import fm, nums, num, triples, optnum
from claims_net import rand_params


def fiber_set(rng, k, nmax=14):
    """In-plane fibers with mixed dimensions (dyadic thicknesses now and then)."""
    n = int(rng.integers(1, nmax + 1))
    place = ["uniform", "cluster", "edges", "corners"][k % 4]
    df = gen.mixed(rng, n, size=float(rng.choice([5., 20., 50.])), lo=0.2, hi=1.0, place=place,
                   angle=["any", "half", "few"][k % 3], same_h=k % 5 == 0, sort=k % 7 != 0,
                   zspan=float(rng.choice([0.5, 10., 200.])))
    if k % 3 == 0:
        df["h"] = rng.choice([0.5, 1., 1.5, 4.], n)
    if k % 4 == 1:
        df["b"] = rng.choice([0.01, 1., 30.], n)
    return df


def any_net(R, rng, k, name="N"):
    """A network of the fiber set "m": full, restricted, or already thresholded."""
    periodic = bool(k % 2)
    kind = k % 5
    n = len(R.live["m"])
    if kind == 3:
        R.net(name, "m", periodic=False, pairs=gen.pairs_of(rng, n, ["noself", "messy", "all", "empty"][(k // 5) % 4]))
    else:
        R.net(name, "m", periodic=periodic)
    return kind


@family("C11 C12 C13", 56)
def stacks(R, rng, k):
    R.given("m", fiber_set(rng, k))
    kind = any_net(R, rng, k)
    if kind == 4:
        # a stack as the network of another stack
        R.stack("S0", "m", "N", threshold=float(rng.uniform(0.2, 4)))
        R.edit("m", lambda m: m.__setitem__("z", m["z"] * 0.3 + 1.), "z")
        R.stack("S", "m", "S0")
        R.stack("S2", "m", "S0", again="S")
    else:
        R.stack("S", "m", "N")
        R.stack("S2", "m", "N", again="S")
        if kind == 1:
            R.stack("S3", "m", "S", again="S")


@family("C11 C12 C13 C14", 6)
def generated_stacks(R, rng, k):
    p = rand_params(rng)
    p.update(n=int(rng.integers(15, 40)), size=50., length=float(rng.choice([12., 25., 50.])), psi=0., seed=k)
    R.mat("m", **p)
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N")
    R.put("m0", R.live["m"].copy())
    R.stack("T", "m", "N", threshold=float(p.get("thickness", 1.)) * float(rng.choice([0.5, 1., 2., 3.])),
            ref="S", refmat="m0")


@family("C11 C12", 12)
def tilted_stacks(R, rng, k):
    """Fibers which are not in the plane: only their heights are stacked."""
    n = int(rng.integers(2, 12))
    R.given("m", gen.mixed(rng, n, size=20., lo=0.3, hi=1., tilt=0.5, place=["uniform", "cluster"][k % 2]))
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N")


@family("C11 C12 C13 C14 C15", 2)
def tiny_stacks(R, rng, k):
    for n in (0, 1, 2):
        R.given("m%d" % n, gen.mixed(rng, n, size=10., lo=0.9, hi=1., place="cluster"))
        R.net("N%d" % n, "m%d" % n, periodic=bool(k % 2))
        stack_system(R, "m%d" % n, "N%d" % n)
        if n:
            R.stack("S%d" % n, "m%d" % n, "N%d" % n)
            R.put("k%d" % n, R.live["m%d" % n].copy())
            R.stack("T%d" % n, "m%d" % n, "N%d" % n, threshold=0., ref="S%d" % n, refmat="k%d" % n)


@family("C11 C12 C13", 12)
def disturbed_stacks(R, rng, k):
    """Stacking again after each fiber of a stack has been lifted or pushed a little, or after the
    set has been drawn out: far above, fibers apart from each other, in the order of the stack or not."""
    n = int(rng.integers(3, 12))
    df = gen.mixed(rng, n, size=10., lo=0.4, hi=1., place=["cluster", "uniform"][k % 2], zspan=3.)
    R.given("m", df)
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N")
    d = [rng.uniform(0, 1, n) * 10. ** -(3 + k % 5), 10. ** -rng.uniform(2, 5, n) * rng.choice([0., 1.], n),
         -rng.uniform(0, 1, n) * 1e-3, rng.uniform(0, 1e-4, n) * rng.choice([-1., 1.], n)][k % 4]
    R.edit("m", lambda m: m.__setitem__("z", m["z"] + d), "z")
    R.net("N2", "m", periodic=bool(k % 2))
    R.stack("S2", "m", "N2")
    R.edit("m", lambda m: m.__setitem__("z", m["z"] * [1., 5., 30., 1.][k % 4] + [3., 40., 2., 0.01][k % 4]), "z")
    R.net("N3", "m", periodic=bool(k % 2))
    R.stack("S3", "m", "N3")


@family("C11 C12 C13", 2)
def many_restricted(R, rng, k):
    """Sets of more than a hundred fibers, with some of their connections only."""
    n = int(rng.integers(135, 180)) + 130 * k
    df = gen.mixed(rng, n, size=20., lo=0.15, hi=0.3, place="uniform", zspan=30.)
    R.given("m", df)
    cross = fm.Net(R.live["m"], periodic=False)[["A", "B"]].values
    keep = (rng.random(len(cross)) < 0.4) | (cross[:, 0] == cross[:, 1])
    R.net("N", "m", periodic=False, pairs=rng.permutation(cross[keep]))
    R.stack("S", "m", "N")


def bordering(rng, n, size):
    """In-plane fibers which touch the border of the box, at all four sides."""
    df = gen.mixed(rng, n, size=size, lo=0.2, hi=0.9, place="boundary", angle="any")
    i = rng.permutation(n)[:2]
    df.loc[i[:1], "x"] = 0.5 * size
    df.loc[i[-1:], "y"] = 0.5 * size
    return df


@family("C11 C12 C13", 8)
def bordering_stacks(R, rng, k):
    R.given("m", bordering(rng, int(rng.integers(2, 9)), float(rng.choice([8., 20.]))))
    R.net("N", "m", periodic=k % 4 != 3)
    R.stack("S", "m", "N")
    R.stack("S2", "m", "N", again="S")


@family("C11 C12 C13 C14 C15", 3)
def piles(R, rng, k):
    """Everything crosses everything: many fibers rest above each other."""
    n = int(rng.integers(20, 31))
    df = gen.mixed(rng, n, size=20., lo=0.9, hi=1., place="cluster", angle=["any", "half"][k % 2])
    df["h"] = rng.choice([0.25, 1., 6.], n, p=[.3, .55, .15])
    # wide fans of parallel fibers, the thick one anywhere among them
    if k % 3 != 1:
        p = np.where((rng.random(n) < 0.85) | (k % 3 == 0), 0.1, 1.5)
        p[-2:] = 1.5
        df.loc[int(rng.integers(0, n)) if k % 3 else int(rng.integers(0, n - 18)), "h"] = 9.
        df["u"], df["v"] = np.cos(p), np.sin(p)
    R.given("m", df)
    R.net("N", "m", periodic=False)
    if k % 3 == 0:
        stack_system(R, "m", "N")
    R.stack("S", "m", "N")
    R.put("m0", R.live["m"].copy())
    R.stack("T", "m", "N", threshold=float(rng.choice([0.5, 1., 3.])), ref="S", refmat="m0")


@family("C14", 12)
def tilted_thresholds(R, rng, k):
    """Out of the plane, nodes of the upper fiber may lie below."""
    n = int(rng.integers(3, 12))
    R.given("m", gen.mixed(rng, n, size=20., lo=0.4, hi=1., tilt=float(rng.choice([0.3, 0.9])),
                           place=["uniform", "cluster"][k % 2]))
    R.net("N", "m", periodic=bool(k % 2))
    R.stack("S", "m", "N")
    R.put("m0", R.live["m"].copy())
    S = R.live["S"]
    d = S.zB.values - S.zA.values
    ts = [0., 1., float(rng.uniform(0, 6))] + ([float(-d.min())] if len(d) and d.min() < 0 else [])
    for j in range(2):
        R.stack("T%d" % j, "m", "N", threshold=float(rng.choice(ts)), ref="S", refmat="m0")


@family("C14", 56)
def thresholds(R, rng, k):
    R.given("m", fiber_set(rng, k, 12))
    kind = any_net(R, rng, k)
    R.stack("S", "m", "N")
    R.put("m0", R.live["m"].copy())
    S = R.live["S"]
    d = np.abs(S.zB.values - S.zA.values)
    d = d[d > 0]
    choices = [0., 1e9, float(rng.uniform(0, 5))]
    if len(d):
        v = float(rng.choice(d))
        choices += [v, v, v * (1 + 1e-5), v * (1 - 1e-5), float(d.min()), float(d.max())]
    for j in range(3):
        t = float(rng.choice(choices))
        if rng.random() < 0.5:
            R.edit("m", lambda m: m.__setitem__("z", rng.permutation(m["z"].values)), "z")
        R.stack("T%d" % j, "m", "N", threshold=t, ref="S", refmat="m0")


def stack_system(R, mat, net):
    m, n = R.live[mat], R.live[net]

    def assemble():
        C, f, H, h = fm.Stack.constraint(m, n)
        return dict(triples(C), H=nums(H), f=nums(f), h=nums(h))

    def forces():
        r = fm.Stack.solve(m, n)
        if r is None:
            return {"x": None}
        return {"x": nums(r.x), "marg": nums(r.ineqlin.marginals), "low": nums(r.lower.marginals)}

    for op, key, f in (("StackSystem", "y", assemble), ("StackForces", "s", forces)):
        e = {"op": op, "mat": mat, "net": net, "uses": [mat, net], key: None}
        try:
            e[key] = f()
        except Exception as x:  # noqa: BLE001
            e["exc"] = type(x).__name__
        R._push(e)


@family("C15", 48)
def systems(R, rng, k):
    df = fiber_set(rng, k, 14)
    if k % 6 == 5:
        # in other units
        c = [1e-3, 1e-4, 1e3, 1e-2][(k // 6) % 4]
        df[[*"lbhxyz"]] *= c
        df.attrs["size"] *= c
    R.given("m", df)
    any_net(R, rng, k)
    stack_system(R, "m", "N")
    if k % 3 == 0:
        R.stack("S", "m", "N")
        stack_system(R, "m", "S")
