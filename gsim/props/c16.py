import math
import os
import random
import time
from concurrent.futures import ThreadPoolExecutor

from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner
from .shared import REAL as _REAL, STUB as _STUB
from .. import boot, cold, engine, gen, pure
from ..ops_graph import Lib

ID = "C16"
RUNS, QUICK, THOROUGH = 8, 420, 7000
FASTJET = True
REAL = _REAL + ["the fastjet library"]
STUB = _STUB + ["availability of the clustering library (it goes and comes back at drawn steps)"]
RULE = ("a run is 1-3 clients clustering shared momenta, besides other queries, with seeded interleaving and, in half of the runs, "
        "injected failures, and in a third of them a further client which removes the clustering library and puts it back; besides, "
        "separately started processes without the library; non-trivial: a context switch or a fault; distinct: different sequence "
        "of (client, code position) steps")


def sprays(rng, n):
    """Particles around a few directions."""
    axes = [(rng.uniform(-2.5, 2.5), rng.uniform(-math.pi, math.pi)) for _ in range(rng.randint(1, 4))]
    width = rng.choice([0.05, 0.3, 0.8])
    out = []
    for _ in range(n):
        e, p = rng.choice(axes)
        e, p, pt = e + rng.gauss(0, width), p + rng.gauss(0, width), 10 ** rng.uniform(-0.5, 2)
        x, y, z = pt * math.cos(p), pt * math.sin(p), pt * math.sinh(e)
        m = rng.choice([0.0, 0.14, 5.0])
        out.append([gen.r6(x), gen.r6(y), gen.r6(z), gen.r6(math.sqrt(x * x + y * y + z * z + m * m) * (1 + 1e-5))])
    return out


def draw(rng, tier):
    world = ops.make_world(rng, npmu=3, nev=1, special=0.0, nord=3)
    for i in range(2):
        if rng.random() < 0.7:
            world["pmu"][i] = sprays(rng, rng.choice([1, 2, 3, 5, 8, 12, 20, 30]))
    if rng.random() < 0.2:
        i = rng.randrange(2)
        rows = world["pmu"][i]
        world["pmu"][i] = rows + [list(rng.choice(rows)) for _ in range(2)]  # exact ties
    names = ["fastjet"] * 6 + ["fastjet_bad"] + ["pt", "eta", "mass", "delta_R", "hard_descendants", "aggregate_momenta", "monte_carlo_tag"]
    progs = clients(rng, world, names, nc=(1, 2, 2, 3), focus=0.3)
    if rng.random() < 0.35:
        prog, out = [], True
        for _ in range(rng.randint(1, 6)):
            prog.append({"f": "lib", "out": out})
            out = not out
            prog += [{"f": "pt", "p": 0} for _ in range(rng.randint(0, 1))]
        progs.append(prog)
        for p in progs[:-1]:
            while len(p) < 5:
                p.append(ops.draw(rng, world, names))
    return {"world": world, "clients": progs, **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    Lib.set(False)
    try:
        out = runner.run_shared(gcl, spec, frozen=True, audit=True)
        # with the library back, clustering works as ever
        n = Lib.epoch
        Lib.set(False)
        if n and not out.viol:
            a = next((a for c in spec["clients"] for a in c if a["f"] == "fastjet"), None)
            if a is not None:
                got = ops.canon(gcl, _try(gcl, spec["world"], a))
                bad = "missing" if got == ("exc", "ImportError") else ops.check(got, ops.expect(spec["world"], a))
                if bad:
                    out.bad(f"afterwards, with the library back, clustering: {bad}")
        for c in spec["clients"]:
            for a in c:
                if a["f"] == "lib":
                    out.bump("fault_library_" + ("removed" if a["out"] else "restored"))
        return out
    finally:
        Lib.set(False)
        Lib.epoch = 0


def _try(gcl, world, a):
    try:
        return ops.run(ops.Objs(gcl, world), a)
    except Exception as e:  # noqa: BLE001
        return e


# --------------------------------------------- processes without the library
def without(gcl, cfg, request):
    """Everything works without the library, except clustering; and that does
    once the library is there."""
    import sys
    out = {"answers": [], "jets": [], "later": []}
    qs = request["queries"]
    for a in qs:
        out["answers"].append(cold.digest(pure.answer(gcl, request["world"], a)))
    p = gcl.MomentumArray(request["world"]["pmu"][0])
    for a in request["jets"]:
        try:
            got = gcl.select.fastjet_clusters(p, *a)
            out["jets"].append(ops.canon(gcl, got))
        except ImportError:
            out["jets"].append("ImportError")
        except Exception as e:  # noqa: BLE001
            out["jets"].append(type(e).__name__)
    for m in request.get("block", ()):
        sys.modules.pop(m, None)
    for a in request["jets"]:
        try:
            out["later"].append(ops.canon(gcl, gcl.select.fastjet_clusters(p, *a)))
        except Exception as e:  # noqa: BLE001
            out["later"].append(f"{type(e).__name__}: {e}")
    return out


def _request(rng):
    world = pure.draw_world(rng)
    world["pmu"][0] = sprays(rng, 9)
    qs = []
    while len(qs) < 40:
        a = pure.draw(rng, world)
        if a["f"] not in ("fastjet", "fastjet_bad") and (a.get("threads") or 0) <= 2:
            qs.append(a)
    jets = [[gen.r6(rng.uniform(0.2, 1.2)), pv, rng.choice([None, 5.0]), rng.choice([None, 3.0]), rng.choice([None, 2])] for pv in (-1, 0, 1, 0.5)]
    return {"module": "gsim.props.c16", "fn": "without", "world": world, "queries": qs, "jets": jets}


def _compare(cfg, req):
    """Complaint about a process without the library, or None."""
    try:
        ref = cold.start(dict(cold.BASE), req)
    except cold.Failed as e:
        raise engine.Broken(f"the plainest process failed: {e}")
    try:
        got = cold.start(cfg, dict(req, block=("fastjet",)))
    except cold.Failed as e:
        return f"a process without the clustering library ends with: {e}"
    for a, x, y in zip(req["queries"], ref["answers"], got["answers"]):
        if x != y:
            return f"without the clustering library, {ops.brief(a, 200)} gives another answer"
    for a, y in zip(req["jets"], got["jets"]):
        if y != "ImportError":
            return f"without the clustering library, clustering {a} gives {ops.brief(y)}, expected an ImportError"
    for a, x, y in zip(req["jets"], ref["jets"], got["later"]):
        if not ops.same(x, y, 0, 0):
            return f"once the clustering library is there, clustering {a} gives {ops.brief(y)}, expected {ops.brief(x)}"
    return None


def finish(gcl, tier, seed):
    rng = random.Random(engine.subseed(seed, ID, "nodes"))
    n = 4 if tier == "quick" else 24
    tasks = [(cold.draw(rng), _request(rng)) for _ in range(n)]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda t: _compare(*t), tasks))
    cov = {"processes_without_the_library": n}
    for k, ((cfg, req), msg) in enumerate(zip(tasks, res)):
        if msg is None:
            continue
        end = time.monotonic() + 60
        for key, v in cold.BASE.items():
            c = dict(cfg, **{key: v})
            if c != cfg and time.monotonic() < end and _compare(c, req):
                cfg = c
        path = os.path.join(boot.VERIF, "replays", f"{ID}-{seed}-process-{k}.json")
        engine.write_json(path, {"version": engine.VERSION, "property": ID, "seed": seed, "tier": tier, "violation": msg, "config": cfg,
                                 "request": req, "replay_with": f"/opt/venv/bin/python /verif/check.py {ID} --replay {path}"})
        return {"coverage": cov, "violation": msg, "replay": path}
    return {"coverage": cov}


def replay(gcl, doc):
    return _compare(doc["config"], doc["request"])
