"""Seeded search over simulated runs, minimisation, replay and evidence.

The parent imports graphicle once and never runs any of it.  Every session (a
few runs) happens in a forked child, so each starts from the same process
image, and a session is a pure function of its seed."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from . import boot, core
from .core import HarnessError

WORKERS = 8
SESSION_TIMEOUT = 150.0
VERSION = 1


class Broken(Exception):
    """The check itself failed: neither held nor violated."""


def subseed(*parts):
    h = hashlib.sha256(":".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


# ---------------------------------------------------------------- one session
def _quiet_child():
    signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    gc.disable()  # collection happens between runs only, at the same places


def _summary(out):
    return {
        "viol": out.viol, "pre": out.pre, "faults": out.faults, "steps": out.steps,
        "switches": out.switches, "ops": out.ops, "log": out.log,
        "digest": out.digest.hexdigest(), "stats": out.stats,
        "distinct": getattr(out, "distinct", None),
    }


def _run_specs(prop, gcl, specs):
    """Run specs in order in this process; stop after the first violation."""
    res = []
    for spec in specs:
        try:
            out = prop.run(gcl, spec)
        except Exception as e:
            if isinstance(e, HarnessError) or not _through_package(e):
                raise
            from .runner import Outcome
            out = Outcome()
            out.bad(f"{type(e).__name__} out of the package: {e}")
        res.append(_summary(out))
        gc.collect()
        if out.viol:
            break
    return res


def _through_package(e):
    """Whether e was raised while the package's own code was running."""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(core.PKG):
            return True
        tb = tb.tb_next
    return False


def in_fork(fn):
    """Start fn in a forked child.  Returns (pid, read end)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        os.setpgid(0, 0)
        _quiet_child()
        try:
            res = ("ok", fn())
        except HarnessError as e:
            res = ("harness", f"{e}\n{traceback.format_exc()}")
        except BaseException as e:  # noqa: BLE001
            res = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
        data = pickle.dumps(res)
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
    except BaseException:  # noqa: BLE001
        code = 3
    finally:
        os._exit(code)


def pool(jobs, limit=None, stop=None, workers=WORKERS):
    """Run (key, fn) jobs in forked children.  Yields (key, result) in
    completion order.  A result is ("ok", v), ("harness", m), ("error", m),
    ("died", m) or ("hung", m)."""
    jobs = iter(jobs)
    live = {}  # fd -> [key, pid, chunks, t0]
    t_end = None if limit is None else time.monotonic() + limit
    dry = False
    try:
        while True:
            while not dry and len(live) < workers:
                if (stop is not None and stop()) or (t_end is not None and time.monotonic() > t_end):
                    dry = True
                    break
                try:
                    key, fn = next(jobs)
                except StopIteration:
                    dry = True
                    break
                pid, fd = in_fork(fn)
                live[fd] = [key, pid, [], time.monotonic()]
            if not live:
                return
            ready, _, _ = select.select(list(live), [], [], 0.5)
            now = time.monotonic()
            for fd in list(live):
                key, pid, chunks, t0 = live[fd]
                if fd in ready:
                    b = os.read(fd, 1 << 20)
                    if b:
                        chunks.append(b)
                        continue
                    os.close(fd)
                    del live[fd]
                    _, st = os.waitpid(pid, 0)
                    _kill_group(pid)
                    if chunks and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                        yield key, pickle.loads(b"".join(chunks))
                    elif os.WIFSIGNALED(st):
                        yield key, ("died", f"the process was ended by signal {os.WTERMSIG(st)}")
                    else:
                        yield key, ("error", f"child status {st}")
                elif now - t0 > SESSION_TIMEOUT:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    _kill_group(pid)
                    os.close(fd)
                    del live[fd]
                    yield key, ("hung", "the run made no progress")
    finally:
        for fd, (key, pid, chunks, t0) in live.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except Exception:
                pass
            _kill_group(pid)
            try:
                os.close(fd)
            except OSError:
                pass


def _kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def fork_one(fn):
    for _, r in pool([(0, fn)], workers=1):
        return r


# ------------------------------------------------------------------ judging
def verdict(result):
    """(violation message or None, per-run summaries) of a session result."""
    tag, v = result
    if tag == "ok":
        for s in v:
            if s["viol"]:
                return s["viol"][0][0], v
        return None, v
    if tag in ("died", "hung"):
        return v, []
    raise Broken(v)


def failing_specs(specs, summaries):
    """The specs up to the failing run, with its decisions written out."""
    n = len(summaries) or len(specs)
    out = []
    for i, spec in enumerate(specs[:n]):
        s = dict(spec)
        if i < len(summaries):
            s["pre"] = [list(x) for x in summaries[i]["pre"]]
            s["faults"] = [list(x) for x in summaries[i]["faults"]]
        out.append(s)
    return out


class Minimiser:
    def __init__(self, prop, gcl, budget):
        self.prop, self.gcl = prop, gcl
        self.t_end = time.monotonic() + budget
        self.tries = 0

    def fails(self, cands):
        """Index of the first candidate (a list of specs) that violates."""
        if not cands or time.monotonic() > self.t_end:
            return None
        self.tries += len(cands)
        jobs = [(i, (lambda c=c: _run_specs(self.prop, self.gcl, c))) for i, c in enumerate(cands)]
        best = None
        found = []
        for i, r in pool(jobs, stop=lambda: bool(found)):
            if r[0] in ("harness", "error"):
                continue  # a candidate which makes no sense is not a smaller failure
            try:
                m, _ = verdict(r)
            except Broken:
                continue
            if m is not None:
                found.append(i)
        if found:
            best = min(found)
        return best

    def _ddmin(self, items, build):
        """Smallest subset of items (by greedy chunk removal) still failing."""
        n = max(1, len(items) // 2)
        while items and time.monotonic() < self.t_end:
            chunks = [items[:i] + items[i + n:] for i in range(0, len(items), n)]
            k = self.fails([build(c) for c in chunks])
            if k is not None:
                items = chunks[k]
                n = min(n, max(1, len(items)))
                continue
            if n == 1:
                break
            n = max(1, n // 2)
        return items

    def run(self, specs):
        if len(specs) > 1:
            if self.fails([specs[-1:]]) is not None:
                specs = specs[-1:]
            else:
                head = self._ddmin(specs[:-1], lambda h: h + specs[-1:])
                specs = head + specs[-1:]
        head, last = specs[:-1], dict(specs[-1])

        def with_(**kw):
            return head + [dict(last, **kw)]

        def sync(r=None):
            pass

        if "clients" in last:
            for _ in range(2):
                # whole clients
                for ci in range(len(last["clients"])):
                    if last["clients"][ci] and sum(bool(c) for c in last["clients"]) > 1:
                        cl = [([] if j == ci else c) for j, c in enumerate(last["clients"])]
                        if self.fails([with_(clients=cl)]) is not None:
                            last["clients"] = cl
                flat = [(ci, a) for ci, c in enumerate(last["clients"]) for a in c]

                def mk(items):
                    cl = [[a for ci, a in items if ci == j] for j in range(len(last["clients"]))]
                    return with_(clients=cl)
                flat = self._ddmin(flat, mk)
                last["clients"] = [[a for ci, a in flat if ci == j] for j in range(len(last["clients"]))]
                if last.get("faults"):
                    last["faults"] = self._ddmin(last["faults"], lambda f: with_(faults=f))
                if last.get("pre"):
                    last["pre"] = self._ddmin(last["pre"], lambda p: with_(pre=p))
        shrink = getattr(self.prop, "shrink", None)
        if shrink:
            again = True
            while again and time.monotonic() < self.t_end:
                again = False
                cands = list(shrink(last))
                for i in range(0, len(cands), WORKERS):
                    k = self.fails([head + [c] for c in cands[i:i + WORKERS]])
                    if k is not None:
                        last = cands[i + k]
                        again = True
                        break
        return head + [last]


# --------------------------------------------------------------------- check
def load_findings(prop_id):
    """Recorded, unrepaired defects of the property: [(signature, text)]."""
    path = os.path.join(boot.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN: property=" + prop_id + " "):
                sig, _, text = line.split(" ", 2)[2].partition(" | ")
                out.append((sig.strip(), text.strip()))
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(obj, fh, indent=1, default=str)
        fh.write("\n")
    os.replace(tmp, path)


def prepare(prop):
    gcl = boot.import_graphicle()
    import warnings
    warnings.simplefilter("ignore")
    if getattr(prop, "FASTJET", False):
        _quiet_fastjet()
    if hasattr(prop, "prepare"):
        prop.prepare(gcl)
    core.instrument()
    gc.collect()
    gc.freeze()
    return gcl


def _quiet_fastjet():
    """Import the real clustering library; its banner goes to /dev/null."""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        import fastjet
        import ctypes
        jd = fastjet.JetDefinition(fastjet.antikt_algorithm, 0.4)
        fastjet._pyjet  # noqa: B018 - force the submodules
        import awkward as ak
        arr = ak.Array([{"px": 1.0, "py": 0.0, "pz": 0.0, "E": 1.0}])
        try:
            fastjet.ClusterSequence(arr, jd).inclusive_jets()
        except Exception:
            pass
        sys.stdout.flush()
        ctypes.CDLL(None).fflush(None)
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def session_specs(prop, seed, tier, s):
    n = getattr(prop, "RUNS", 6)
    specs = []
    for r in range(n):
        sd = subseed(seed, prop.ID, s, r)
        spec = prop.draw(random.Random(sd), tier)
        spec.setdefault("sseed", sd)
        for ci, c in enumerate(spec.get("clients", [])):
            for i, a in enumerate(c):
                a.setdefault("n", i)
        specs.append(spec)
    return specs


def replay(prop, path):
    gcl = prepare(prop)
    with open(path) as fh:
        doc = json.load(fh)
    m = None
    if "compare" in doc:
        got = set()
        for _ in range(doc["compare"]):
            m, sums = verdict(fork_one(lambda: _run_specs(prop, gcl, doc["specs"])))
            got.add(tuple(x["digest"] for x in sums))
        m = m or (doc["violation"] if len(got) > 1 else None)
    elif "specs" not in doc:
        m = prop.replay(gcl, doc)
    else:
        for _ in range(doc.get("attempts", 1)):
            m, _s = verdict(fork_one(lambda: _run_specs(prop, gcl, doc["specs"])))
            if m is not None:
                break
    if m is None:
        print(f"replay of {path}: no violation")
        return 0
    print(f"replay of {path}: {m}")
    print(f"VIOLATION property={prop.ID} replay={os.path.abspath(path)}")
    return 1


def check(prop, tier, seed, sessions=None):
    t0 = time.monotonic()
    gcl = prepare(prop)
    t_ready = time.monotonic()
    want = sessions or (prop.QUICK if tier == "quick" else prop.THOROUGH)
    cap = getattr(prop, "CAP", 120) if tier == "quick" else getattr(prop, "CAP_THOROUGH", 600)
    tot = {"runs": 0, "steps": 0, "switches": 0, "ops": 0, "violating": 0}
    stats, logs, digests, samples = {}, set(), {}, []
    nontrivial = set()
    bad = []

    def job(s):
        return lambda: _run_specs(prop, gcl, session_specs(prop, seed, tier, s))

    broken, unconfirmed, known_hits = [], [], []
    findings = load_findings(prop.ID)
    violations = []
    t_stop = time.monotonic() + cap

    def search(todo):
        """Run sessions until one violates.  Returns it, or None."""
        found = []
        for s, r in pool(((s, job(s)) for s in todo), limit=max(1.0, t_stop - time.monotonic()), stop=lambda: bool(found or broken)):
            try:
                m, sums = verdict(r)
            except Broken as e:
                broken.append((s, str(e)))
                continue
            if m is not None:
                known = [t for sig, t in findings if sig in m]
                if known:
                    known_hits.extend(known)
                else:
                    found.append((s, m, sums))
            digests[s] = [x["digest"] for x in sums]
            for k, x in enumerate(sums):
                tot["runs"] += 1
                for f in ("steps", "switches", "ops"):
                    tot[f] += x[f]
                logs.add(x["log"])
                for d in (x["distinct"] if x["distinct"] is not None else
                          ([x["log"]] if (x["switches"] > 0 or x["faults"]) else [])):
                    nontrivial.add(d)
                for f, v in x["stats"].items():
                    stats[f] = stats.get(f, 0) + v
                if len(samples) < 3 and s % 7 == 0 and not x["viol"]:
                    samples.append({"session": s, "run": k, "steps": x["steps"], "switches": x["switches"],
                                    "preemptions": x["pre"][:12], "faults": x["faults"][:6],
                                    "spec": _short(session_specs(prop, seed, tier, s)[k])})
        return found

    while not violations and not broken:
        found = search([s for s in range(want) if s not in digests])
        if not found:
            break
        for b in found:
            bad.append(b)
            got = confirm(prop, gcl, seed, tier, b)
            if got is None:
                unconfirmed.append(b)
            else:
                violations.append({"message": got[1], "replay": got[0]})
                break
        if time.monotonic() > t_stop:
            break
    t_search = time.monotonic() - t_ready
    stats_again = repeat_bad = 0
    tot_extra = {}
    if not violations and not broken:
        # the same seeds must give the same executions
        again = sorted(digests)[:: max(1, len(digests) // 6)][:6]
        for s, r in pool([(s, job(s)) for s in again]):
            m, sums = verdict(r)
            if [x["digest"] for x in sums] == digests[s]:
                stats_again += 1
                continue
            repeat_bad += 1
            if getattr(prop, "REPEATABLE", False) and not violations:
                path = os.path.join(boot.VERIF, "replays", f"{prop.ID}-{seed}-{s}.json")
                msg = "two executions of the same session from the same process image gave different results"
                write_json(path, {"version": VERSION, "property": prop.ID, "seed": seed, "session": s, "tier": tier, "violation": msg,
                                  "specs": session_specs(prop, seed, tier, s), "compare": 6,
                                  "replay_with": f"/opt/venv/bin/python /verif/check.py {prop.ID} --replay {path}"})
                violations.append({"message": msg, "replay": path})
        if not violations and hasattr(prop, "finish"):
            extra = prop.finish(gcl, tier, seed) or {}
            tot_extra = extra.get("coverage", {})
            if extra.get("violation"):
                violations.append({"message": extra["violation"], "replay": extra["replay"]})
    for t in sorted(set(known_hits)):
        print(f"KNOWN-FINDING: property={prop.ID} {t}")
    if broken and not violations:
        raise Broken(f"session {broken[0][0]}: {broken[0][1]}")
    if unconfirmed and not violations:
        raise Broken(f"session {unconfirmed[0][0]} reported {unconfirmed[0][1]!r} but does not reproduce")
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault_")}
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": samples or [{"note": "stopped by a violation before a sample was kept"}],
            "sessions": len(digests), "operations": tot["ops"],
            "runs_per_hour": round(tot["runs"] / max(t_search, 1e-9) * 3600),
            "sessions_per_hour": round(len(digests) / max(t_search, 1e-9) * 3600),
            "simulated_time": {"unit": "scheduler steps; the package reads no clock and sets no timer",
                               "steps": tot["steps"]},
            "context_switches": tot["switches"],
            "distinct_interleavings": len(logs),
            "faults_injected": faults,
            "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault_", "op_"))},
            "operations_by_kind": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op_")},
            "sessions_reexecuted_identically": stats_again,
            "sessions_reexecuted_differently": repeat_bad,
            "instrumented_code_objects": core._ON["codes"],
            "aslr_off": os.environ.get("GSIM_ASLR_OFF") == "1",
            "real_components": prop.REAL, "stub_components": prop.STUB,
            "search_s": round(t_search, 2), "import_s": round(t_ready - t0, 2),
            **tot_extra,
        },
        "assumptions": getattr(prop, "ASSUMES", []),
        "wall_s": round(wall, 2),
    }
    if violations:
        ev["violations"] = violations
    write_json(os.path.join(boot.VERIF, "evidence", prop.ID + ".json"), ev)
    if violations:
        print(f"{prop.ID}: {violations[0]['message']}")
        print(f"VIOLATION property={prop.ID} replay={violations[0]['replay']}")
        return 1
    print(f"{prop.ID} held: {tot['runs']} runs, {tot['ops']} operations, {tot['steps']} steps, "
          f"{tot['switches']} switches, {len(logs)} distinct interleavings, faults {faults}, {wall:.0f} s")
    return 0


def _short(spec):
    s = json.dumps(spec, default=str)
    return s if len(s) < 4000 else s[:4000] + "..."


def confirm(prop, gcl, seed, tier, b):
    """Replay the violation from recorded decisions, minimise it, write the
    replay file and replay that once more.  None: it does not reproduce."""
    s, msg, sums = b
    specs = session_specs(prop, seed, tier, s)
    cand = failing_specs(specs, sums)
    attempts = 1

    def again(c, n):
        """(message, executions needed) of the first of n executions that fails."""
        for i in range(n):
            try:
                m, _ = verdict(fork_one(lambda: _run_specs(prop, gcl, c)))
            except Broken:
                continue
            if m is not None:
                return m, i + 1
        return None, n
    ok, n = again(cand, 3)
    if ok is not None and n == 1:
        small = Minimiser(prop, gcl, getattr(prop, "SHRINK_S", 20)).run(cand)
        m, _n = again(small, 1)
        if m is not None:
            cand, ok = small, m
    elif ok is None:
        # searching mode: same seed, same execution; or, when the code under
        # test itself is nondeterministic (a data race), one of several
        cand = specs[:max(1, len(sums))]
        ok, n = again(cand, 12)
        if ok is None:
            return None
    attempts = 1 if n == 1 else 40
    path = os.path.join(boot.VERIF, "replays", f"{prop.ID}-{seed}-{s}.json")
    write_json(path, {"version": VERSION, "property": prop.ID, "seed": seed, "session": s,
                      "tier": tier, "violation": ok, "first_seen_as": msg, "specs": cand, "attempts": attempts,
                      "replay_with": f"/opt/venv/bin/python /verif/check.py {prop.ID} --replay {path}"})
    return path, ok


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sessions", type=int)
    ap.add_argument("--seed", type=int)
    args = ap.parse_args(argv)
    boot.reexec()
    try:
        seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = subseed(os.environ.get("VERIF_SEED"))
    sys.setrecursionlimit(3000)
    prop = importlib.import_module(f"gsim.props.{args.property.lower()}")
    cache = boot.CacheDir()
    rc = 2
    try:
        rc = replay(prop, args.replay) if args.replay else check(prop, args.tier, seed, args.sessions)
    except ImportViolation as e:
        print(e)
        rc = 2
    except Broken as e:
        print(f"BROKEN CHECK {prop.ID}: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        cache.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


class ImportViolation(Exception):
    pass
