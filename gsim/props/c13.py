import json
import os
import random
import time
from concurrent.futures import ThreadPoolExecutor

from .shared import *  # noqa: F401,F403
from .shared import sched, ops
from .shared import STUB as _STUB
from .. import boot, cold, engine, pure, zygote
from ..ops import identical

ID = "C13"
RUNS, QUICK, THOROUGH = 8, 260, 6000
CAP = 75
REPEATABLE = True
FASTJET = True
STUB = _STUB + ["process environment (each process is started with a drawn configuration)"]
RULE = ("a run is 1-3 clients making queries as pure functions in drawn histories, with seeded interleaving and, in half of the "
        "runs, injected failures, each answer compared bit for bit with that of an untouched process image; besides, a pool of "
        "queries is answered by separately started processes under drawn configurations and compared bit for bit; non-trivial: a "
        "context switch or a fault; distinct: different sequence of (client, code position) steps")


def draw(rng, tier):
    world = pure.draw_world(rng)
    menu = [pure.draw(rng, world) for _ in range(rng.randint(2, 5))]
    clients = [[dict(rng.choice(menu)) for _ in range(rng.randint(2, 6))] for _ in range(rng.choice([1, 2, 2, 3]))]
    return {"world": world, "clients": clients, **sched(rng, rng.random() < 0.5)}


_Z = []


def run(gcl, spec):
    from ..runner import Outcome, make_sim, attempt, dig, finish_sim, RETRY
    if not _Z:
        _Z.append(zygote.Zygote(lambda req: pure.answer(gcl, *req)))
    world = spec["world"]
    out = Outcome()
    sim = make_sim(spec)
    results = []

    def one(c, i, a):
        r, hit = attempt(sim, c, i, pure.perform, gcl, world, a)
        out.ops += 1
        out.bump("op_" + a["f"])
        got = ops.canon(gcl, r)
        dig(out, got)
        if hit and isinstance(r, BaseException):
            out.bump("failed_ops")
        else:
            results.append((c.idx, i, a, got))
        return r, hit

    def body(prog):
        def go(c):
            for a in prog:
                r, hit = one(c, a["n"], a)
                if hit and isinstance(r, BaseException):
                    one(c, RETRY + a["n"], a)
        return go

    for prog in spec["clients"]:
        sim.add(body(prog))
    if spec.get("fault_kinds"):
        sim.faultable = lambda c, o: o < RETRY
    sim.run()
    for ci, i, a, got in results:
        q = {k: v for k, v in a.items() if k != "n"}
        st, ref = _Z[0].ask((world, q), json.dumps([world, q], sort_keys=True))
        if st != "ok":
            out.bad(f"{ops.brief(q, 200)} alone in an untouched process: {st} {ref}", ci, i)
        elif not identical(got, ref):
            out.bad(f"{ops.brief(q, 200)} gives {ops.brief(got, 160)} here, {ops.brief(ref, 160)} in an untouched process", ci, i)
        out.bump("compared_with_untouched_process")
    finish_sim(sim, out)
    return out


# ------------------------------------------------------------ separate processes
def pool(seed, tier):
    rng = random.Random(engine.subseed(seed, ID, "pool"))
    worlds = [pure.draw_world(rng) for _ in range(24 if tier == "quick" else 120)]
    items = []
    for i in range(420 if tier == "quick" else 3000):
        w = rng.randrange(len(worlds))
        a = pure.draw(rng, worlds[w])
        if (a.get("threads") or 0) > 2:
            a["threads"] = 2  # every configuration has that many
        items.append((i, w, a))
    return worlds, items


def ask(cfg, worlds, items, **kw):
    used = sorted({w for _, w, _ in items})
    return cold.start(cfg, {"module": "gsim.cold", "fn": "queries", "worlds": {w: worlds[w] for w in used}, "items": items, **kw})


def differ(cfg, base, worlds, items, i):
    """Message if query i of items has different answers under the two."""
    try:
        a = ask(base, worlds, items, full=[i], keep=[i])
    except cold.Failed as e:
        raise engine.Broken(f"the plainest process failed: {e}")
    try:
        b = ask(cfg, worlds, items, full=[i], keep=[i])
    except cold.Failed as e:
        return f"a process under another configuration ends with: {e}"
    if "again" in b:
        return f"{ops.brief(items_by(items, b['again']), 200)} gives two different answers in one process"
    if a["digest"][i] != b["digest"].get(i):
        return (f"{ops.brief(items_by(items, i), 200)} gives {ops.brief(b['full'].get(i), 200)}, "
                f"in another process {ops.brief(a['full'][i], 200)}")
    return None


def items_by(items, i):
    return next(a for k, _, a in items if k == i)


def shrink_config(cfg, worlds, items, i, budget):
    """Drop the parts of the configuration which do not matter."""
    end = time.monotonic() + budget
    base = cold.BASE
    best = items
    if time.monotonic() < end:
        alone = [x for x in items if x[0] == i]
        if _tries(cfg, worlds, alone, i):
            best = alone
    for k in ("first", "env", "flags", "junk", "cwd", "threads", "gc", "twice", "skip", "aslr", "hash", "order"):
        if time.monotonic() > end:
            break
        if cfg[k] == base[k]:
            continue
        c = dict(cfg, **{k: base[k]})
        if _tries(c, worlds, best, i):
            cfg = c
    return cfg, best


def _tries(cfg, worlds, items, i):
    try:
        return differ(cfg, cold.BASE, worlds, items, i) is not None
    except engine.Broken:
        return False


def finish(gcl, tier, seed):
    worlds, items = pool(seed, tier)
    rng = random.Random(engine.subseed(seed, ID, "configs"))
    n = 18 if tier == "quick" else 150
    cfgs = [dict(cold.BASE)] + [cold.draw(rng, cold=(k % 9 == 0)) for k in range(n)]

    def one(cfg):
        try:
            return "ok", ask(cfg, worlds, items)
        except cold.Failed as e:
            return "failed", str(e)
    t0 = time.monotonic()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, cfgs))
    st, base = res[0]
    if st != "ok":
        raise engine.Broken(f"the plainest process failed: {base}")
    cov = {"processes_started": len(cfgs), "processes_compared": 0, "process_queries_compared": 0,
           "process_configurations": {"hash_seeds": len({c["hash"] for c in cfgs}), "cold_caches": sum(c["cold"] for c in cfgs),
                                      "optimised": sum(bool(c["flags"] and c["flags"][0].startswith("-O")) for c in cfgs),
                                      "worker_maxima": sorted({c["env"].get("NUMBA_NUM_THREADS", "8") for c in cfgs}),
                                      "perturbed_memory": sum("MALLOC_PERTURB_" in c["env"] for c in cfgs)},
           "processes_s": round(time.monotonic() - t0, 1)}
    for k, (cfg, (st, got)) in enumerate(zip(cfgs, res)):
        i = None
        if st == "failed":
            i = items[0][0]
            cov["processes_failed"] = cov.get("processes_failed", 0) + 1
        elif "again" in got:
            i = got["again"]
        else:
            cov["processes_compared"] += 1
            cov["process_queries_compared"] += len(got["digest"])
            bad = [j for j, d in got["digest"].items() if d != base["digest"][j]]
            i = bad[0] if bad else None
        if i is None:
            continue
        msg = differ(cfg, cold.BASE, worlds, items, i)
        if msg is None:  # e.g. a fresh hash seed each time
            for _ in range(3):
                msg = msg or differ(cfg, cold.BASE, worlds, items, i)
        if msg is None:
            if st == "failed":
                raise engine.Broken(f"a process failed once and not again: {got}")
            msg = f"{ops.brief(items_by(items, i), 200)} once gave another answer under configuration {k}"
        keep, part = shrink_config(cfg, worlds, items, i, 60)
        msg = differ(keep, cold.BASE, worlds, part, i) or msg
        path = os.path.join(boot.VERIF, "replays", f"{ID}-{seed}-process-{k}.json")
        used = {w for _, w, _ in part}
        engine.write_json(path, {"version": engine.VERSION, "property": ID, "seed": seed, "tier": tier, "violation": msg, "config": keep,
                                 "base": cold.BASE, "item": i, "items": part, "worlds": {w: worlds[w] for w in used},
                                 "replay_with": f"/opt/venv/bin/python /verif/check.py {ID} --replay {path}"})
        return {"coverage": cov, "violation": msg, "replay": path}
    return {"coverage": cov}


def replay(gcl, doc):
    worlds = {int(k): v for k, v in doc["worlds"].items()}
    items = [tuple(x) for x in doc["items"]]
    for _ in range(8):
        m = differ(doc["config"], doc["base"], worlds, items, doc["item"])
        if m:
            return m
    return None
