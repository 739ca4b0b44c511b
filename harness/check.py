"""Decide one property:  check.py <property> [--only <scenario>]

1. TLC checks the models of the property and enumerates cases.
2. The cases, and generated scenarios, are run in the real library (from the
   working tree of /repo) and recorded.
3. TLC validates every recorded execution against the specification.
"""
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import time
import traceback
import zlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc  # noqa: E402
from tlaval import parse as parse_tla  # noqa: E402

VERIF = tlc.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def unquote(line):
    """Lines printed by PrintT(string)."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return None


def run_model(m, tier, claim):
    t0 = time.time()
    rc, out = tlc.run(m.module, m.cfg[tier], env={"CLAIM": claim}, workers=m.workers, heap="3g",
                      timeout=800 if tier == "quick" else 3000, args=m.args)
    cases = []
    for line in out.splitlines():
        u = unquote(line)
        if u and u.startswith("CASE "):
            cases.append(u[5:])
    ok = rc == 0 and "No error has been found" in out or (m.args and rc == 0)
    if not ok:
        raise tlc.TlcError("model %s: TLC exit %d\n%s" % (m.cfg[tier], rc, out[-3000:]))
    gen, dist = tlc.counts(out)
    if m.args and not gen:
        g = re.findall(r"(\d+) states checked", out)
        gen = dist = int(g[-1]) if g else len(cases)
    return dict(module=m.module, cfg=m.cfg[tier], generated=gen, distinct=dist, cases=cases,
                wall=round(time.time() - t0, 2))


def pick(cases, limit, seed):
    """The cases to replay: all of them, or a selection spread over all of them."""
    cases = sorted(set(cases))
    if len(cases) <= limit:
        return [parse_tla(c) for c in cases]
    import numpy as np
    rng = np.random.default_rng(seed)
    step = len(cases) / limit
    return [parse_tla(cases[min(len(cases) - 1, int((i + rng.random()) * step))]) for i in range(limit)]


def family_scenarios(claim, spec, tier, seed):
    """Scenarios: (name, function)."""
    import numpy as np
    out = []
    for name, f, q, t in spec.families:
        for k in range(q if tier == "quick" else t):
            def go(R, name=name, f=f, k=k):
                rng = np.random.default_rng([seed, zlib.crc32(claim.encode()), zlib.crc32(name.encode()), k])
                f(R, rng, k)
            out.append(("%s/%d" % (name, k), go))
    return out


def model_scenarios(tier, seed, models):
    """Replay of the cases of the models."""
    import numpy as np
    out = []
    for m, res in models:
        if m.replay is None:
            continue
        cases = pick(res["cases"], m.limit[tier], seed)
        for k in range(0, len(cases), m.batch):
            def go(R, m=m, part=cases[k:k + m.batch], k=k):
                rng = np.random.default_rng([seed, zlib.crc32(m.module.encode()), k])
                for c in ([part] if m.group else part):
                    try:
                        m.replay(R, rng, c)
                    except R.Abort:
                        pass
            out.append(("%s/%d" % (m.cfg[tier], k), go))
    return out


_WORK = {}


def work(task):
    """Record the scenarios of one trace and let TLC validate it."""
    claim, ids, tmp = task
    import fm
    R = fm.Recorder()
    R.Abort = fm.Abort
    if _WORK.get("origin"):
        R.origin = _WORK["origin"].connect()
    t0 = time.time()
    skipped = 0
    for j in ids:
        name, f = _WORK["scenarios"][j]
        R.scenario = j
        R.start()
        try:
            f(R)
        except fm.Abort:
            pass
        except Exception as x:  # noqa: BLE001
            # the driver cannot use what the library returned
            try:
                R._push({"op": "Driver", "exc": "Driver: %s: %s" % (type(x).__name__, str(x)[:160]),
                         "msg": traceback.format_exc()[-1500:]})
            except Exception:
                R.live = {}
                R._push({"op": "Driver", "exc": "Driver: %s" % type(x).__name__})
    path = os.path.join(tmp, "trace-%d.json" % ids[0])
    R.dump(path)
    t1 = time.time()
    n = len(R.events)
    res = dict(ids=ids, events=n, rec=round(t1 - t0, 2), size=os.path.getsize(path), fails=[], error=None,
               states=0, ops=dict(collections.Counter(e["op"] for e in R.events)),
               sample=None)
    if n == 0:
        res["done"] = True
        return res
    try:
        rc, out = tlc.run("Trace", env={"TRACE": path, "CLAIM": claim}, heap=os.environ.get("VERIF_HEAP", "2500m"))
    except tlc.TlcError as x:
        res["error"] = str(x)
        return res
    done = False
    for line in out.splitlines():
        u = unquote(line)
        if not u:
            continue
        if u.startswith("FAIL "):
            i, bad = re.match(r"FAIL <<(\d+), (.*)>>$", u).groups()
            e = R.events[int(i) - 1]
            res["fails"].append((R.where[int(i) - 1], int(i), sorted(re.findall(r'"([^"]*)"', bad)),
                                 {k: v for k, v in e.items() if k in ("op", "msg", "exc", "what", "result", "built", "alone",
                                                                     "cls", "kind", "o", "p", "periodic")}))
        elif u.startswith("DONE "):
            done = int(u.split()[1]) == n
    res["states"] = tlc.counts(out)[1]
    if not done:
        if re.search(r"OutOfMemory|StackOverflow|Java heap|GC overhead", out):
            res["error"] = "TLC ran out of memory\n" + out[-1500:]
        else:
            at = re.findall(r"/\\ i = (\d+)", out)
            i = int(at[-1]) if at else 0
            why = re.findall(r"(?s)Error: (.*?)(?:Error:|$)", out)
            if i >= n or i == 0 or not at:
                res["error"] = out[-1500:]
            else:
                res["fails"].append((R.where[i], i + 1, ["the specification has no value for what was recorded"],
                                     {"op": R.events[i]["op"], "tlc": (why[0] if why else out)[:1500]}))
                res["partial"] = True
    res["val"] = round(time.time() - t1, 2)
    keep = {i for _, i, _, _ in res["fails"][:3]}
    res["excerpt"] = {i: R.events[i - 1] for i in keep}
    res["done"] = done
    # one event, as recorded
    for e in R.events:
        if e["op"] not in ("Start", "Given") and not e["exc"]:
            res["sample"] = {k: v for k, v in e.items() if k not in ("heap",) and len(json.dumps(v)) < 400}
    if not os.environ.get("VERIF_KEEP"):
        os.unlink(path)
    return res


def known(claim):
    """Known findings: (scenario, clause) of this property."""
    out = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) clause=\[(.*?)\] (.*)", line)
            if m and m.group(1) == claim:
                out.add((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    claim = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tlc.build()
    import claims
    spec = claims.load()[claim]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % claim)
    if claim == "C34":
        # before any call of the library
        import alone
        _WORK["origin"] = alone.Origin(tmp)
    try:
        return decide(claim, spec, tier, seed, only, tmp, t0)
    finally:
        if "origin" in _WORK:
            _WORK["origin"].stop()
        shutil.rmtree(tmp, ignore_errors=True)


def decide(claim, spec, tier, seed, only, tmp, t0):
    # the families are recorded and validated while the models are checked
    sc = family_scenarios(claim, spec, tier, seed)
    wanted = lambda name: only is None or name == only or name.split("/")[0] == only
    ctx = mp.get_context("fork")

    def submit(ids):
        per = spec.chunks.get(tier) or max(1, min(40, -(-len(ids) // WORKERS)))
        # deal the scenarios to the traces in turn, so that traces take equally long
        n = -(-len(ids) // per) if ids else 0
        tasks = [(claim, ids[i::n], tmp) for i in range(n)]
        if not tasks:
            return None, []
        ex = cf.ProcessPoolExecutor(min(WORKERS, len(tasks)), mp_context=ctx)
        return ex, [ex.submit(work, t) for t in tasks]

    nfam = len(sc)
    _WORK["scenarios"] = sc
    ids1 = [j for j in range(len(sc)) if wanted(sc[j][0])]
    pool, futures = submit(ids1)
    with cf.ThreadPoolExecutor(4) as ex:
        results = list(ex.map(lambda m: run_model(m, tier, claim), spec.models))
    out = [f.result() for f in futures]
    if pool:
        pool.shutdown()
    sc = sc + model_scenarios(tier, seed, list(zip(spec.models, results)))
    _WORK["scenarios"] = sc
    ids2 = [j for j in range(nfam, len(sc)) if wanted(sc[j][0])]
    pool, futures = submit(ids2)
    out += [f.result() for f in futures]
    if pool:
        pool.shutdown()
    ids = ids1 + ids2
    errors = [r["error"] for r in out if r["error"]]
    fails = [f for r in out for f in r["fails"]]
    excerpt = {}
    for r in out:
        for s, i, bad, e in r["fails"]:
            if i in r.get("excerpt", {}):
                excerpt.setdefault(s, r["excerpt"][i])
    kn = known(claim)
    listed, new = set(), []
    for s, i, bad, e in fails:
        rest = []
        for b in bad:
            hit = [k for k in kn if k[0] == sc[s][0] and k[1] == b]
            if hit:
                listed.add(hit[0])
            else:
                rest.append(b)
        if rest:
            new.append((s, i, rest, e))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    traces = sum(len(r["ids"]) for r in out if r.get("done"))
    ops = collections.Counter()
    for r in out:
        ops.update(r["ops"])
    ops.pop("Start", None)
    states = sum(m["distinct"] for m in results) + sum(r["states"] for r in out)
    trans = sum(m["generated"] for m in results) + sum(r["events"] for r in out)
    samples = [dict(scenario=sc[r["ids"][-1]][0], event=r["sample"]) for r in out if r["sample"]][:3]
    samples += [dict(model=m["cfg"], case=m["cases"][len(m["cases"]) // 2][:600]) for m in results if m["cases"]][:2]
    ev = {"property": claim, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                       "samples": samples or [{"none": True}],
                       "models": [{k: (v if k != "cases" else len(v)) for k, v in m.items()} for m in results],
                       "recorded_calls": dict(ops),
                       "families": dict(collections.Counter(sc[j][0].split("/")[0] for j in ids))},
          "assumptions": ["Rat.java evaluates rational arithmetic correctly (cross-checked by RatTest)",
                          "the recorder reads tables and results faithfully"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if only is None:
        with open(os.path.join(VERIF, "evidence", claim + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for k in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (claim, k[2]))
    print("%s tier=%s seed=%d scenarios=%d calls=%d states=%d wall=%.1f s  (record %.1f, validate %.1f max)" % (
        claim, tier, seed, len(ids), sum(ops.values()), states, time.time() - t0,
        max([r["rec"] for r in out] or [0]), max([r.get("val", 0) for r in out] or [0])))
    if new:
        by = collections.OrderedDict()
        for s, i, bad, e in new:
            by.setdefault(s, []).append((i, bad, e))
        path = os.path.join(VERIF, "evidence", "replay", claim + ".json")
        rep = {"property": claim, "tier": tier, "seed": seed,
               "replay": "VERIF_SEED=%d VERIF_TIER=%s bash check.sh %s --only %s" % (seed, tier, claim, sc[new[0][0]][0]),
               "violations": [{"scenario": sc[s][0], "clauses": sorted({b for _, bad, _ in v for b in bad}),
                               "event": v[0][2], "recorded": excerpt.get(s)} for s, v in list(by.items())[:20]]}
        with open(path, "w") as fh:
            json.dump(rep, fh, indent=1, default=str)
        for s, v in list(by.items())[:8]:
            print("  %s: %s  %s" % (sc[s][0], sorted({b for _, bad, _ in v for b in bad}), json.dumps(v[0][2], default=str)[:500]))
        print("VIOLATION property=%s replay=%s" % (claim, os.path.relpath(path, VERIF)))
        return 1
    if errors:
        print("ERROR: " + errors[0])
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    for child in mp.active_children():
        child.kill()
    os._exit(code)
