"""Registry of the checks: for every property its scenarios and its models.

A scenario is a function f(R, rng, k): it drives the real library through the
recorder R with inputs drawn from rng; k is its number within the family.
"""
import os

CLAIMS = {}


class Claim:
    def __init__(self):
        self.families = []   # (name, function, quick count, thorough count)
        self.models = []     # Model
        self.chunks = {}     # scenarios per trace


class Model:
    """A model checked by TLC; its cases are replayed into the library."""

    def __init__(self, module, quick, thorough=None, replay=None, limit=(400, 4000), batch=1,
                 workers=4, args=(), group=False):
        self.group = group   # replay takes the list of the cases of a batch
        self.module = module
        self.cfg = {"quick": quick, "thorough": thorough or quick}
        self.replay = replay
        self.limit = {"quick": limit[0], "thorough": limit[1]}
        self.batch = batch
        self.workers = workers
        self.args = args


def claim(c):
    return CLAIMS.setdefault(c, Claim())


def family(claims, quick, thorough=None, name=None):
    def deco(f):
        for c in claims.split():
            claim(c).families.append((name or f.__name__, f, quick, thorough or 8 * quick))
        return f
    return deco


def model(claims, module, quick, thorough=None, limit=(400, 4000), batch=1, workers=4, args=(), replay=None,
          group=False):
    def deco(f):
        for c in claims.split():
            claim(c).models.append(Model(module, quick, thorough, f, limit, batch, workers, args, group))
        return f
    if replay is False:
        deco(None)
        return None
    return deco


def load():
    import claims_net      # noqa: F401
    import claims_stack    # noqa: F401
    import claims_mesh     # noqa: F401
    import claims_solve    # noqa: F401
    import claims_vtk      # noqa: F401
    import claims_misc     # noqa: F401
    import claims_stages   # noqa: F401
    import claims_parts    # noqa: F401
    import claims_params   # noqa: F401
    import claims_models   # noqa: F401
    return CLAIMS
