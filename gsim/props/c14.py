import os
import random
import time
from concurrent.futures import ThreadPoolExecutor

from .shared import *  # noqa: F401,F403
from .shared import sched
from .shared import STUB as _STUB
from .. import boot, cold, engine, machines, saves, zygote

ID = "C14"
RUNS, QUICK, THOROUGH = 8, 420, 9000
REPEATABLE = True
STUB = _STUB + ["disk (every access may be slow, fail or be torn)", "process death (all memory is lost at a drawn step)"]
RULE = ("a run is 1-3 clients, each changing its own objects and saving and restoring them, besides shared ones others read, with "
        "seeded interleaving and, in half of the runs, injected memory, interrupt and disk failures; in most runs the process dies "
        "at a drawn step, and an untouched process restores what had reached the disk and works on; non-trivial: a context switch, "
        "a fault or a death; distinct: different sequence of (client, code position) steps")


def draw(rng, tier):
    k = rng.choice([1, 1, 2, 2, 3])
    s = sched(rng, rng.random() < 0.5)
    init, progs, second = [], [], []
    for _ in range(k):
        kind = rng.choice(["copies", "copies", "groups", "events"])
        init.append({"r": rng.randrange(1 << 30), "kind": kind, "faulty": "fault_kinds" in s})
        progs.append(saves.programs(rng, kind, rng.randint(4, 14)))
        second.append(saves.programs(rng, kind, rng.randint(2, 7), True))
    d = {"init": init, "clients": progs, "second": second, "bag": rng.randrange(1 << 30) if rng.random() < 0.6 else None, **s}
    if rng.random() < 0.7:
        c = rng.randrange(k)
        d["crash"] = [c, rng.randrange(len(progs[c])), int(10 ** rng.uniform(0, 2.5))]
    return d


_Z = []


def revive(gcl, req):
    """In an untouched process: restore, check, and work on."""
    spec = {"clients": req["second"], "init": req["init"], "p": 0.05, "p_op": 0.5, "first": 0, "sseed": req["sseed"]}
    ms = []
    for init, entry in zip(req["init"], req["entries"]):
        cls = saves.KINDS[init["kind"]]
        try:
            m, bad = saves.restore(gcl, cls, dict(init, faulty=False), entry)
        except Exception as e:  # noqa: BLE001
            return [f"a saved {init['kind']} state cannot be restored: {type(e).__name__}: {e}"], "", 0
        if bad:
            return [f"restored in another process: {bad}"], "", 0
        ms.append(m)
    for prog in spec["clients"]:
        for n, a in enumerate(prog):
            a["n"] = n
    out = machines.run_history(gcl, spec, None, built=ms)
    return [f"after restoring in another process: {v[0]}" for v in out.viol], out.digest.hexdigest(), out.ops


def run(gcl, spec):
    from ..runner import dig
    if not _Z:
        _Z.append(zygote.Zygote(lambda req: revive(gcl, req)))
    bag = saves.Bag(gcl, {"r": spec["bag"]}) if spec.get("bag") is not None else None
    ms = []
    for init in spec["init"]:
        m = saves.KINDS[init["kind"]](gcl, init)
        m.begin(bag)
        ms.append(m)
    out = machines.run_history(gcl, spec, None, built=ms, extra=[bag] if bag else [])
    for m in ms:
        for k, n in m.stats.items():
            out.bump(k, n)
    if out.crashed:
        out.bump("fault_process_death")
    if out.viol:
        return out
    # the newest durable state of everybody, and an older one of somebody
    rng = random.Random(spec["bag"] or 7)
    init, entries, second = [], [], []
    for i, m in enumerate(ms):
        if m.disk:
            init.append(spec["init"][i])
            entries.append(m.disk[-1] if rng.random() < 0.7 else rng.choice(m.disk))
            second.append([{k: v for k, v in a.items() if k != "n"} for a in spec["second"][i]])
    if not entries:
        return out
    st, res = _Z[0].ask({"init": init, "entries": entries, "second": second, "sseed": spec.get("bag") or 1})
    if st != "ok":
        out.bad(f"a process restoring a checkpoint: {st} {res}")
        return out
    viol, digest, n = res
    out.ops += n
    out.bump("restored_elsewhere", len(entries))
    out.bump("operations_after_restoring", n)
    dig(out, [digest])
    for v in viol:
        out.bad(v)
    return out


# ------------------------------------------------- between separate processes
def save_node(gcl, cfg, request):
    """In a process of its own: live a while, then save everything."""
    out = []
    for job in request["jobs"]:
        rng = random.Random(job["r"])
        m = saves.KINDS[job["kind"]](gcl, {"r": job["r"], "kind": job["kind"]})
        m.begin()
        for a in job["program"]:
            st = m.step(a)
            if st is None:
                continue
            try:
                r = st.run()
            except Exception:  # noqa: BLE001 - some operations are meant to be refused
                continue
            if st.commit:
                st.commit(r)
        form = saves.draw_form(rng, False)
        form.update(how="pickle", slow=False, protocol=job["protocol"], oob=False)
        objs, state = m.snap(rng, form)
        f = saves.File()
        extra = saves.dump(objs, form, f)
        out.append((form, f.bytes(), extra, m.kinds(state), state))
    return out


def load_node(gcl, cfg, request):
    """In another: restore each, check it and work on."""
    out = []
    for job, entry in zip(request["jobs"], request["entries"]):
        v = revive(gcl, {"init": [{"r": job["r"], "kind": job["kind"]}], "entries": [entry], "second": [job["second"]], "sseed": job["r"]})
        out.append(v[0][0] if v[0] else None)
    return out


def _jobs(rng, n):
    out = []
    for _ in range(n):
        kind = rng.choice(["copies", "groups", "events"])
        out.append({"r": rng.randrange(1 << 30), "kind": kind, "protocol": rng.randint(0, 5),
                    "program": saves.programs(rng, kind, rng.randint(2, 12)), "second": saves.programs(rng, kind, rng.randint(2, 6), True)})
    return out


def _pass(a, b, jobs):
    """First (job, complaint), or None."""
    try:
        entries = cold.start(a, {"module": "gsim.props.c14", "fn": "save_node", "jobs": jobs})
    except cold.Failed as e:
        return 0, f"the saving process ends with: {e}"
    try:
        got = cold.start(b, {"module": "gsim.props.c14", "fn": "load_node", "jobs": jobs, "entries": entries})
    except cold.Failed as e:
        return 0, f"the restoring process ends with: {e}"
    return next(((i, m) for i, m in enumerate(got) if m), None)


def _config(rng):
    c = cold.draw(rng)
    if int(c["env"]["NUMBA_NUM_THREADS"]) < 8:
        c["env"]["NUMBA_NUM_THREADS"] = "8"  # programs ask for up to eight workers
    return c


def finish(gcl, tier, seed):
    rng = random.Random(engine.subseed(seed, ID, "nodes"))
    n = 8 if tier == "quick" else 80
    tasks = [(_config(rng), _config(rng), _jobs(rng, 30)) for _ in range(n)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: _pass(*t), tasks))
    cov = {"process_pairs": n, "states_passed_between_processes": sum(len(t[2]) for t in tasks)}
    for k, ((a, b, jobs), bad) in enumerate(zip(tasks, res)):
        if bad is None:
            continue
        i, msg = bad
        end = time.monotonic() + 60
        if _pass(a, b, [jobs[i]]):
            jobs = [jobs[i]]
        for which in ("a", "b"):
            for key, v in cold.BASE.items():
                c, d = (dict(a, **{key: v}), b) if which == "a" else (a, dict(b, **{key: v}))
                if (c, d) != (a, b) and time.monotonic() < end and _pass(c, d, jobs):
                    a, b = c, d
        msg = (_pass(a, b, jobs) or bad)[1]
        path = os.path.join(boot.VERIF, "replays", f"{ID}-{seed}-processes-{k}.json")
        engine.write_json(path, {"version": engine.VERSION, "property": ID, "seed": seed, "tier": tier, "violation": msg, "saving": a,
                                 "restoring": b, "jobs": jobs, "replay_with": f"/opt/venv/bin/python /verif/check.py {ID} --replay {path}"})
        return {"coverage": cov, "violation": msg, "replay": path}
    return {"coverage": cov}


def replay(gcl, doc):
    for _ in range(4):
        bad = _pass(doc["saving"], doc["restoring"], doc["jobs"])
        if bad:
            return bad[1]
    return None
