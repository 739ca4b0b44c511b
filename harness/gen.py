"""Generators of inputs: fiber sets, pairs, tables with defects, fields."""
import numpy as np
import pandas as pd

COLS = list("lbhxyzuvwGE")


def fibers(size, l, x, y, z, p, q=None, b=1., h=1., G=1., E=np.inf, uvw=None, attrs=None):
    """A table of fibers: p, q in-plane and out-of-plane angles."""
    l, x, y, z = (np.asarray(a, dtype=float) for a in (l, x, y, z))
    n = len(x)
    full = lambda a: np.broadcast_to(np.asarray(a, dtype=float), (n,)).copy()
    l, b, h, G, E = map(full, (l, b, h, G, E))
    if uvw is None:
        p = full(p)
        q = full(0. if q is None else q)
        u, v, w = np.cos(p) * np.cos(q), np.sin(p) * np.cos(q), np.sin(q)
    else:
        u, v, w = (full(a) for a in uvw)
    df = pd.DataFrame(np.c_[l, b, h, x, y, z, u, v, w, G, E].reshape(n, 11), columns=COLS)
    df.attrs = {"n": n, "size": size}
    df.attrs.update(attrs or {})
    return df


def mixed(rng, n, size=50., lo=0.2, hi=0.9, place="uniform", angle="any", tilt=0., same_h=False,
          sort=True, finite=False, same_l=False, zspan=None):
    """Random fibers with mixed dimensions, in the box of the given size."""
    l = rng.uniform(lo, hi, n) * size
    if same_l:
        l[:] = hi * size
    a = 0.5 * size
    def pos():
        t = rng.uniform(-1, 1, n)
        if place == "edges":
            k = rng.random(n) < 0.7
            t[k] = np.sign(t[k]) * (1 - 0.15 * np.abs(t[k]))
        elif place == "corners":
            t = np.sign(t) * (1 - 0.3 * np.abs(t))
        elif place == "cluster":
            t *= 0.15
        elif place == "boundary":
            k = rng.random(n) < 0.5
            t[k] = np.sign(t[k])
        return t * a
    x, y = pos(), pos()
    z = rng.uniform(-1, 1, n) * (a if zspan is None else zspan)
    if sort:
        z = np.sort(z)
    if angle == "any":
        p = rng.uniform(-np.pi, np.pi, n)
    elif angle == "half":
        p = rng.uniform(-np.pi / 2, np.pi / 2, n)
    elif angle == "axis":
        p = rng.integers(0, 4, n) * (np.pi / 2)
    elif angle == "few":
        p = rng.choice(rng.uniform(-np.pi, np.pi, 3), n)
    elif angle == "narrow":
        p = rng.uniform(-0.05, 0.05, n)
    q = rng.uniform(-tilt, tilt, n) if tilt else None
    h = 1.0 if same_h else rng.uniform(0.2, 2.0, n)
    b = 1.0 if same_h else rng.uniform(0.3, 3.0, n)
    G = 1.0 if same_h else rng.uniform(0.5, 5.0, n)
    E = (rng.uniform(50, 5000, n) if finite else np.inf)
    return fibers(size, l, x, y, z, p, q, b, h, G, E)


def tips(rng, n, size, hi=0.5):
    """Pairs of fibers which cross near their tips, somewhere near the corners or edges of the box."""
    m = (n + 1) // 2
    l = rng.uniform(0.6, 1., n) * hi * size
    p = rng.uniform(-np.pi, np.pi, n)
    c = rng.uniform(-.08, .08, (m, 2)) * size + 0.5 * size * rng.choice([0., 1., 1.], (m, 2))
    x, y = np.empty(n), np.empty(n)
    for i in range(n):
        t = 0.5 * l[i] * rng.uniform(0.8, 0.98)
        x[i], y[i] = c[i // 2] - t * np.array([np.cos(p[i]), np.sin(p[i])])
    for i in range(0, n - 1, 2):
        if rng.random() < 0.5:
            # almost a line of two fibers as long as any, the first of which is centered at the border
            l[i] = l[i + 1] = l.max()
            d = [1., -1.][int(rng.integers(0, 2))] * np.eye(2)[int(rng.integers(0, 2))]
            side = np.array([-d[1], d[0]])
            c = 0.5 * size * (1 - rng.uniform(0, .03)) * d + rng.uniform(-.5, .5) * size * side
            t, e = l[i] * rng.uniform(0.965, 0.99), l[i] * 0.003
            x[i], y[i] = c - e * side
            x[i + 1], y[i + 1] = c + t * d - e * side
            p[i] = np.arctan2(*(d + 0.012 * side)[::-1])
            p[i + 1] = np.arctan2(*(d - 0.012 * side)[::-1])
    wrap = lambda a: (a + 0.5 * size) % size - 0.5 * size
    return fibers(size, l, wrap(x), wrap(y), np.arange(n) * 1., p, h=rng.uniform(0.2, 2., n))


def joints(rng, n, size, close=(1., 6.)):
    """Fibers which join at their tips, a fraction of 10^-close of their length from the ends."""
    l = rng.choice([0.3, 0.5, 0.5, 0.5, 0.8], n) * size * 0.5
    p = np.cumsum(rng.uniform(0.5, 2.6, n))
    t = 0.5 * l * (1 - 10. ** -rng.uniform(*close, n))
    s = 0.5 * l * (1 - 10. ** -rng.uniform(*close, n))
    x, y = np.zeros(n), np.zeros(n)
    for i in range(1, n):
        # the tip of the last one is where this one starts
        x[i] = x[i - 1] + t[i - 1] * np.cos(p[i - 1]) + s[i] * np.cos(p[i])
        y[i] = y[i - 1] + t[i - 1] * np.sin(p[i - 1]) + s[i] * np.sin(p[i])
    flip = rng.random(n) < 0.5
    wrap = lambda a: (a - a.mean() + 0.5 * size) % size - 0.5 * size
    return fibers(size, l, wrap(x), wrap(y), np.arange(n) * 1., p + np.pi * flip, h=rng.choice([0.5, 1., 1.5], n),
                  b=rng.uniform(0.5, 2., n), G=rng.uniform(0.5, 5., n), E=rng.uniform(50., 3000., n))


AXES = [(1., 0., 0.), (0., 1., 0.), (-1., 0., 0.), (0., -1., 0.)]


def lattice(rng, n, size=8., step=0.5, lmax=8, edge=False, hs=(0.5, 1.0, 1.5)):
    """Axis-aligned fibers with dyadic data: every decision is exact."""
    a = int(size / 2 / step)
    pick = lambda: rng.integers(-a, a + 1, n) * step
    x, y = pick(), pick()
    if edge:
        k = rng.random(n) < 0.6
        x[k] = np.sign(rng.uniform(-1, 1, k.sum())) * (a - rng.integers(0, 3, k.sum())) * step
        k = rng.random(n) < 0.6
        y[k] = np.sign(rng.uniform(-1, 1, k.sum())) * (a - rng.integers(0, 3, k.sum())) * step
    l = rng.integers(1, int(lmax) + 1, n) * 1.0
    z = np.sort(rng.integers(-a, a + 1, n) * step)
    d = np.array(AXES)[rng.integers(0, 4, n)].reshape(n, 3)
    h = rng.choice(hs, n)
    return fibers(size, l, x, y, z, 0., b=rng.choice([0.5, 1., 2.], n), h=h,
                  uvw=(d[:, 0], d[:, 1], d[:, 2]))


def given_lattice(size, rows, h=None):
    """Lattice fibers from (x, y, axis, l) rows, as the model enumerates them."""
    n = len(rows)
    x = [r[0] for r in rows]
    y = [r[1] for r in rows]
    d = np.array([AXES[r[2]] for r in rows]).reshape(n, 3)
    l = [r[3] for r in rows]
    return fibers(size, l, x, y, np.arange(n) * 1.0, 0., h=1. if h is None else h,
                  uvw=(d[:, 0], d[:, 1], d[:, 2]))


def compact(rng, n, size=10., length=6., finite=True, mixed_h=True, angle="half", b=1.):
    """A dense little packing problem."""
    E = rng.uniform(50, 2000, n) if finite else np.inf
    h = rng.choice([0.5, 1.0, 1.5], n) if mixed_h else 1.0
    x, y = rng.uniform(-.5, .5, n) * size, rng.uniform(-.5, .5, n) * size
    z = np.sort(rng.uniform(-.5, .5, n) * size)
    p = rng.uniform(-np.pi / 2, np.pi / 2, n)
    return fibers(size, length, x, y, z, p, h=h, E=E, G=rng.uniform(0.5, 3, n) if mixed_h else 1.0, b=b)


def pairs_of(rng, n, kind):
    """Lists of candidate pairs."""
    full = np.array([(i, j) for i in range(n) for j in range(i, n)]).reshape(-1, 2)
    if kind == "empty" or len(full) == 0:
        return np.zeros((0, 2), dtype=int)
    k = rng.random(len(full)) < rng.uniform(0.2, 0.9)
    p = full[k]
    if kind == "noself":
        p = p[p[:, 0] != p[:, 1]]
    elif kind == "self":
        p = np.array([(i, i) for i in range(n)])
    elif kind in ("swapped", "messy"):
        s = rng.random(len(p)) < 0.5
        p = np.where(s[:, None], p[:, ::-1], p)
    if kind == "messy" and len(p):
        p = p[rng.integers(0, len(p), 2 * len(p))]
    if kind == "all":
        p = full
    if kind == "shuffled" or kind == "messy":
        p = p[rng.permutation(len(p))]
    return p.reshape(-1, 2)


def bridges(rng, sup=2, beams=1, loads=1, jitter=0.3, top=0, finite=True, mixed=True, size=20., E=None):
    """Beams over supports, loaded between them: the compaction bends them.

    sup fibers on the floor, beams across them, loads across the beams, top
    more fibers across the loads."""
    span = 6.
    x = list(np.linspace(-span, span, sup)) + [0.] * beams
    y = [0.] * sup + list(np.linspace(-2., 2., beams) if beams > 1 else [0.])
    mid = span / (sup - 1)
    x += [(-span + mid * (2 * (i % (sup - 1)) + 1)) for i in range(loads)]
    y += [0.] * loads
    x += [0.] * top
    y += list(rng.uniform(-3., 3., top))
    p = [np.pi / 2] * sup + [0.] * beams + [np.pi / 2] * loads + [0.] * top
    l = [8.] * sup + [16.] * beams + [8.] * loads + [16.] * top
    n = len(x)
    g = lambda s: rng.uniform(-s, s, n)
    if finite:
        E = rng.uniform(50., 1500., n) if E is None else E
    else:
        E = np.inf
    h = rng.choice([0.5, 1., 1.5], n) if mixed else 1.
    return fibers(size, np.array(l) + g(jitter), np.array(x) + g(jitter), np.array(y) + g(jitter),
                  np.arange(n) * 2. - n, np.array(p) + g(jitter * 0.3), h=h,
                  b=rng.uniform(0.5, 2., n) if mixed else 1., G=rng.uniform(0.5, 3., n) if mixed else 1., E=E)
