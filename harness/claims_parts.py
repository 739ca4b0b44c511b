"""C40, C41: unconnected fibers do not influence each other; which end of a fiber is first does not matter."""
import numpy as np
import pandas as pd

import gen
from claims import family
from claims_solve import WELL


def chain(R, tag, df, periodic, threshold=None, options=None, jam=False):
    """A fiber set and what is made of it."""
    R.given("m" + tag, df)
    R.net("N" + tag, "m" + tag, periodic=periodic)
    R.stack("S" + tag, "m" + tag, "N" + tag, threshold=threshold)
    R.mesh("M" + tag, "S" + tag, "m" + tag)
    names = {"mat": "m" + tag, "net": "N" + tag, "stack": "S" + tag, "mesh": "M" + tag}
    if options is not None:
        R.solve("r" + tag, "m" + tag, "M" + tag, mayJam=jam, **options)
        names["run"] = "r" + tag
    return names


def part_of(df, labels):
    labels = sorted(int(i) for i in labels)
    d = pd.DataFrame(df.iloc[labels][gen.COLS].reset_index(drop=True))
    d.attrs = {"n": len(d), "size": df.attrs["size"]}
    return d, labels


def part_event(R, part, whole, labels, options=None, rev=None):
    o = R.events[-1]["o"] if options is not None else None
    R._push({"op": "Part", "part": part, "whole": whole, "map": labels, "o": o,
             "rev": [False] * len(labels) if rev is None else [bool(r) for r in rev],
             "uses": sorted(set(part.values()) | set(whole.values()))})


def together(rng, parts, places, size):
    """One fiber set of parts at given places; returns it and the labels of every part."""
    rows, of = [], []
    for k, (d, (x, y)) in enumerate(zip(parts, places)):
        d = d[gen.COLS].copy()
        d["x"] += x
        d["y"] += y
        rows.append(d)
        of += [k] * len(d)
    of = np.array(of)
    # the fibers of a part stay in order, between those of the others
    mixed = rng.permutation(of) if rng.random() < 0.8 else of
    order = np.empty(len(of), dtype=int)
    for k in range(len(parts)):
        order[mixed == k] = np.nonzero(of == k)[0]
    df = pd.concat(rows, ignore_index=True).iloc[order].reset_index(drop=True)
    df["z"] = np.linspace(-0.5, 0.5, len(df)) * size * 0.5
    df = pd.DataFrame(df)
    df.attrs = {"n": len(df), "size": size}
    return df, [np.nonzero(mixed == k)[0] for k in range(len(parts))]


PLACES = [(-18., -18.), (18., 18.), (-18., 18.), (18., -18.)]


@family("C40", 24)
def beside(R, rng, k):
    """Small problems beside each other, too far to touch; all are compacted."""
    parts = []
    for j in range(2 + (k % 4 == 0)):
        kind = (k + j) % 3
        if kind < 2:
            parts.append(gen.bridges(rng, jitter=float(rng.choice([0.05, 0.3, 0.8])), mixed=bool(k % 2),
                                     E=None if k % 5 else float(rng.choice([20., 1e3]))))
        else:
            parts.append(gen.compact(rng, int(rng.integers(1, 5)), size=8., length=float(rng.choice([4., 6., 8.])),
                                     b=float(rng.choice([0.5, 2.]))))
    places = [PLACES[i] for i in rng.permutation(4)[:len(parts)]]
    df, labels = together(rng, parts, places, 72.)
    periodic = bool(k % 2)
    o = dict(WELL, packing=float(rng.choice([1.2, 1.5, 2.])), itermax=60)
    whole = chain(R, "", df, periodic, options=o, jam=True)
    for j, l in enumerate(labels):
        d, l = part_of(df, l)
        p = chain(R, str(j), d, periodic, options=dict(o, packing=o["packing"] * 1.4), jam=True)
        part_event(R, p, whole, l, o)


def scaled(d, length, modulus):
    """The same fibers at another scale."""
    d = d.copy()
    d[["l", "b", "h", "x", "y", "z"]] *= length
    d[["G", "E"]] *= modulus
    return d


@family("C40", 12)
def unequal(R, rng, k):
    """Parts of very different sizes, weights and stiffnesses; many short fibers beside a few long ones."""
    big = gen.bridges(rng, jitter=0.3, mixed=bool(k % 2)) if k % 3 else gen.compact(rng, 4, size=12., length=10.)
    small = scaled(gen.bridges(rng, jitter=0.5) if k % 2 else gen.compact(rng, 4, size=8., length=8.),
                   float(rng.choice([0.03, 0.1, 0.3])), float(10. ** rng.uniform(-3, 3)))
    # (far from their center, and close to each other)
    close = gen.fibers(16., 14., [0., 9., 0.01], [0., 0.4, 0.], [0., 1., 2.], [0.1, -0.2, 1.5], G=2., E=300.)
    some = [big, small] + [close] * (k % 4 < 2)
    n = int(rng.integers(5, 25)) * (k % 2)
    parts, places = list(some), [PLACES[i] for i in rng.permutation(4)[:len(some)]]
    for j in range(n):
        parts.append(gen.fibers(1., float(rng.choice([0.2, 1.])), [0.], [0.], [0.], [rng.uniform(0, 3)], b=0.1, h=0.2,
                                G=0.5, E=20.))
        places.append((-33. + 2.5 * j, 0. if len(some) < 3 else 34.))
    df, labels = together(rng, parts, places, 72.)
    o = dict(WELL, packing=1.3, itermax=80) if n == 0 else None
    whole = chain(R, "", df, bool(k % 4 > 1), options=o, jam=True)
    for j, l in enumerate(labels[:len(some)]):
        d, l = part_of(df, l)
        p = chain(R, str(j), d, bool(k % 4 > 1), options=o and dict(o, packing=2.5), jam=True)
        part_event(R, p, whole, l, o)


def components(n, net):
    root = list(range(n))
    def find(i):
        while root[i] != i:
            i = root[i]
        return i
    for a, b in zip(net["A"].tolist(), net["B"].tolist()):
        root[find(a)] = find(b)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    return sorted(groups.values(), key=len)


@family("C40", 16)
def clusters(R, rng, k):
    """Sparse random fibers fall apart; every cluster alone is as in the whole."""
    n = int(rng.choice([12, 25, 40]))
    size = 50.
    df = gen.mixed(rng, n, size=size, lo=0.03, hi=float(rng.choice([0.15, 0.25, 0.4])), finite=True,
                   place=["uniform", "edges", "corners"][k % 3], tilt=0.)
    periodic = bool(k % 2)
    thr = float(rng.choice([1., 3.])) if k % 4 == 3 else None
    whole = chain(R, "", df, periodic, threshold=thr)
    groups = components(n, R.live["N"])
    several = [g for g in groups if len(g) > 1][-3:]
    some = sorted(sum((g for g in groups if rng.random() < 0.5), []))
    for j, g in enumerate(several + [some] * (0 < len(some) < n)):
        d, l = part_of(df, g)
        p = chain(R, str(j), d, periodic, threshold=thr)
        part_event(R, p, whole, l)


def turned(rng, df, k):
    """The same fibers, some (or all) of them described from their other end."""
    rev = rng.random(len(df)) < 0.6 if k % 3 else np.ones(len(df), dtype=bool)
    rev[rng.integers(0, len(df))] = True
    d = df[gen.COLS].copy()
    d.loc[rev, ["u", "v", "w"]] *= -1
    d = pd.DataFrame(d)
    d.attrs = {"n": len(d), "size": df.attrs["size"]}
    return d, rev


@family("C41", 24)
def ends(R, rng, k):
    """Compactions of the same fibers, from either end."""
    if k % 3 < 2:
        df = gen.bridges(rng, sup=2 + (k % 5 == 0), jitter=float(rng.choice([0.05, 0.3, 0.8])), loads=1 + (k % 5 == 0),
                         mixed=bool(k % 2), top=int(k % 4 == 0))
    else:
        df = gen.compact(rng, int(rng.integers(2, 8)), size=16., length=float(rng.choice([6., 8.])))
    periodic = bool(k % 2)
    o = dict(WELL, packing=float(rng.choice([1.2, 1.5, 2.])), itermax=60)
    if periodic:
        df.attrs["size"] = 34.
    whole = chain(R, "", df, periodic, options=o, jam=True)
    for j in range(2):
        d, rev = turned(rng, df, k + j)
        p = chain(R, str(j), d, periodic, options=dict(o, packing=o["packing"] * 1.4), jam=True)
        part_event(R, p, whole, list(range(len(df))), o, rev)


@family("C41", 12)
def ends_of_many(R, rng, k):
    """Networks, stacks and meshes of many fibers, from either end."""
    n = int(rng.choice([8, 15, 25]))
    df = gen.mixed(rng, n, size=30., lo=0.2, hi=0.5, finite=True, place=["uniform", "edges", "corners"][k % 3],
                   angle=["any", "half", "few"][(k // 2) % 3], same_h=k % 4 == 1)
    periodic = bool(k % 2)
    thr = float(rng.choice([1., 3.])) if k % 4 == 3 else None
    whole = chain(R, "", df, periodic, threshold=thr)
    d, rev = turned(rng, df, k)
    part_event(R, chain(R, "1", d, periodic, threshold=thr), whole, list(range(n)), rev=rev)


@family("C41", 12)
def near_ends(R, rng, k):
    """Fibers which meet at their tips, or nearly."""
    n = int(rng.choice([3, 6, 12]))
    df = gen.joints(rng, n, 20., close=(1., 8.))
    periodic = bool(k % 2)
    whole = chain(R, "", df, periodic)
    for j in range(2):
        d, rev = turned(rng, df, k + j)
        part_event(R, chain(R, str(j), d, periodic), whole, list(range(n)), rev=rev)


@family("C40", 6)
def clusters_compacted(R, rng, k):
    """The same, and the whole is compacted."""
    n = int(rng.choice([10, 14]))
    df = gen.mixed(rng, n, size=40., lo=0.2, hi=0.45, finite=True, same_h=bool(k % 2))
    o = dict(WELL, packing=1.5, itermax=40)
    periodic = bool(k % 2)
    R.given("m", df)
    R.net("N", "m", periodic=periodic)
    groups = components(n, R.live["N"])
    whole = chain(R, "", df, periodic, options=o, jam=True)
    for j, g in enumerate([g for g in groups if len(g) < n][-3:]):
        d, l = part_of(df, g)
        p = chain(R, str(j), d, periodic, options=dict(o, packing=3.), jam=True)
        part_event(R, p, whole, l, o)
