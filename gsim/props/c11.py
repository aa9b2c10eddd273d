import json
import random

import numpy as np

from .shared import *  # noqa: F401,F403
from .shared import STUB as _STUB, sched, ops, runner
from .. import core, gen, model as M, zygote
from ..ops import identical

ID = "C11"
RUNS, QUICK, THOROUGH = 8, 500, 16000
REPEATABLE = True
STUB = _STUB + ["entropy of generators which were given no seed (drawn from the run's seed)"]
RULE = ("a run is 1-3 clients generating momenta and computing event shapes with and without seeds, re-seeding the process-wide "
        "generators in between, with seeded interleaving and, in half of the runs, injected failures; every seeded result is "
        "compared bit for bit with the same call made alone in a fresh process; non-trivial: a context switch, a fault, or a "
        "seeded call repeated; distinct: different sequence of (client, code position) steps")

SEEDS = [0, 0, 1, 2, 7, 42, 123456789, 2**31, 2**32 + 5, 2**64 + 3, 2**100]


def _args(a):
    kw = {}
    if a["seed"] is not None:
        s = a["seed"]
        kw["seed"] = np.int64(s) if a.get("np") and s < 2**62 else s
    if a["ml"] is not None:
        kw["massless"] = a["ml"]
    return a["n_rows"], a["emax"], kw


def _generated(a, got):
    """What any generated momenta must be."""
    if not (isinstance(got, tuple) and got[0] == "pmu"):
        return f"expected momenta, got {ops.brief(got)}"
    v = got[1]
    if v.shape != (a["n_rows"], 4):
        return f"{a['n_rows']} momenta wanted, got an array of shape {v.shape}"
    if not np.all(np.isfinite(v)):
        return "momenta are not finite"
    e, p = v[:, 3], np.sqrt((v[:, :3] ** 2).sum(axis=1))
    top = a["emax"]
    if np.any(e < 0) or np.any(e > top):
        return f"energies outside [0, {top}]: {ops.brief(e.tolist())}"
    tol = 1e-9 * top
    if np.any(p > e + tol):
        return "momentum exceeds energy"
    heavy = p < e - 1e-6 * e - tol
    if a["ml"] == 1.0 and np.any(heavy):
        return "massless momenta have a mass"
    if (a["ml"] or 0.0) == 0.0 and a["n_rows"] >= 6 and np.sum(heavy) <= a["n_rows"] // 3:
        return "momenta asked to be massive are massless"
    if len(v) >= 1000:
        m = _uniform(v, e, p, a["ml"] or 0.0, top)
        if m:
            return m
    if a["n_rows"] > 1 and len({tuple(r) for r in v.tolist()}) < a["n_rows"]:
        return "momenta are repeated"
    return None


def _uniform(v, e, p, ml, top):
    """Energies, directions and masses follow their documented distributions:
    moments within seven standard deviations."""
    n = len(v)
    some = p > 1e-9 * top
    cos = v[some, 2] / p[some]
    phi = np.arctan2(v[some, 1], v[some, 0])
    ratio = np.sqrt(np.maximum(e * e - p * p, 0.0)) / np.maximum(e, 1e-300)
    heavy = ratio > 1e-5
    flat = [("energies", e / top), ("cosines of the polar angle", (cos + 1) / 2), ("azimuths", phi / (2 * np.pi) + 0.5)]
    if ml < 1.0 and np.sum(heavy) >= 200:
        flat.append(("masses over energies", ratio[heavy]))
    for what, u in flat:
        k = len(u)
        for how, got, want, var in (("mean", u.mean(), 1 / 2, 1 / 12), ("mean square", (u * u).mean(), 1 / 3, 4 / 45),
                                    ("second harmonic", np.cos(4 * np.pi * u).mean(), 0.0, 1 / 2)):
            if abs(got - want) > 7 * (var / k) ** 0.5 + 1e-4:
                return f"{what} are not uniform: {how} of {k} is {got:.4f}, expected {want:.4f}"
    # which owe nothing to each other, nor to the momentum before
    told = [(w, np.where(some, x, 0.5)) for w, x in (("energies", e / top), ("polar angles", (v[:, 2] / np.maximum(p, 1e-300) + 1) / 2),
                                                    ("azimuths", np.arctan2(v[:, 1], v[:, 0]) / (2 * np.pi) + 0.5), ("masslessness", heavy * 1.0))]
    told = [(w, (x - x.mean()) / x.std()) for w, x in told if x.std() > 1e-3]
    for i, (w, x) in enumerate(told):
        for w2, y, k in [(w2, y, n) for w2, y in told[:i]] + [("those of the momentum before", np.roll(x, 1), n)]:
            if abs(np.mean(x * y)) > 7 / k ** 0.5:
                return f"{w} depend upon {w2}: correlation {np.mean(x * y):.3f} of {k}"
    share = 1.0 - heavy.mean()
    if abs(share - ml) > 7 * (ml * (1 - ml) / n) ** 0.5 + 1e-3:
        return f"{share:.3f} of {n} momenta are massless, asked for {ml}"
    return None


STARTS = 24


def _survey_sets(a):
    r = random.Random(a["seed"])
    return [gen.ordinary(r, 3 + r.randrange(12)) for _ in range(STARTS)]


def _turned(axis, h):
    ax = np.asarray(axis, dtype=np.float64)
    u = np.cross(ax, [1.0, 0.0, 0.0] if abs(ax[0]) < 0.9 else [0.0, 1.0, 0.0])
    u /= np.linalg.norm(u)
    v = np.cross(ax, u)
    for k in range(16):
        t = 2 * np.pi * k / 16
        n = ax + h * (np.cos(t) * u + np.sin(t) * v)
        yield n / np.linalg.norm(n)


def _surveyed(a, got):
    """Searches which went downhill all the way end where no small turn of the
    axis improves the value.  Those which meet the edge of the domain or a
    crease may not, which befalls about one in four."""
    if not (isinstance(got, tuple) and got[0] == "list" and len(got[1]) == STARTS):
        return f"expected {STARTS} values and axes, got {ops.brief(got)}"
    at, sign = (M.thrust_at, 1) if a["shape"] == "thrust" else (M.spherocity_at, -1)
    ended = 0
    for rows, g in zip(_survey_sets(a), got[1]):
        m = ops.shape_mismatch(rows, at, sign, True, g)
        if m:
            return m
        val, ax = g[1][0], ops._num(g[1][1])
        ended += max(sign * (at(rows, n) - val) for n in _turned(ax, 1e-3)) < 1e-5
    if ended < 5:
        return f"{STARTS - ended} of {STARTS} searches ended beside a better axis"
    return None


TALLY = 60


def _tallied(a, got):
    """Each momentum is massless with the probability asked for, whichever its
    place, and owes nothing to the others: the number of massless ones of a
    generation is spread as that of independent trials."""
    n, ml = a["n_rows"], a["ml"]
    if not (isinstance(got, tuple) and got[0] == "list" and len(got[1]) == TALLY):
        return f"expected {TALLY} sets of momenta, got {ops.brief(got)}"
    light, first = [], []
    for g in got[1]:
        m = _generated({"n_rows": n, "emax": 10.0, "ml": ml}, g)
        if m:
            return m
        v = g[1]
        e, p = v[:, 3], np.sqrt((v[:, :3] ** 2).sum(axis=1))
        light.append(np.sqrt(np.maximum(e * e - p * p, 0.0)) < 1e-5 * e)
        first.append(e / 10.0)
    light, first = np.array(light), np.array(first)
    # every place
    for j in range(n):
        if abs(light[:, j].mean() - ml) > 7 * (ml * (1 - ml) / TALLY) ** 0.5 + 1e-3:
            return f"momentum {j} of {n} is massless in {light[:, j].mean():.2f} of {TALLY} generations, asked for {ml}"
        if abs(first[:, j].mean() - 0.5) > 7 * (1 / 12 / TALLY) ** 0.5:
            return f"momentum {j} of {n} has mean energy {first[:, j].mean():.2f} of the bound over {TALLY} seeds"
    # the spread of the number
    k = light.sum(axis=1)
    var = n * ml * (1 - ml)
    if not 0.2 < k.var() / var < 3.0:
        return f"the number of massless momenta of {n}, asked for {ml}, varies over {TALLY} seeds by {k.var():.2f}, expected {var:.2f}"
    return None


class Menu:
    """Operations are made for this property only: the registry is not told."""


def run_op(o, a):
    gcl = o.gcl
    f = a["f"]
    if f == "generate":
        n, e, kw = _args(a)
        return gcl.MomentumArray.from_spherical_uniform(n, e, **kw)
    if f in ("thrust", "spherocity"):
        fn = getattr(gcl.calculate, f)
        kw = {} if a["seed"] is None else {"rng_seed": a["seed"]}
        return fn(o.pmu[a["p"]], return_axis=a["axis"], **kw)
    if f == "survey":
        fn = getattr(gcl.calculate, a["shape"])
        return [fn(gcl.MomentumArray(np.array(rows)), return_axis=True, rng_seed=k) for k, rows in enumerate(_survey_sets(a))]
    if f == "tally":
        return [gcl.MomentumArray.from_spherical_uniform(a["n_rows"], 10.0, massless=a["ml"], seed=a["seed"] + k) for k in range(TALLY)]
    if f == "reseed":
        if a["how"] == "np":
            np.random.seed(a["v"])
        elif a["how"] == "draw":
            np.random.random(a["v"] % 7)
            random.random()
        else:
            random.seed(a["v"])
        return None
    raise KeyError(f)


def judge(world, a, got):
    f = a["f"]
    if f == "reseed":
        return None
    if f == "generate":
        if a["ml"] is not None and not 0.0 <= a["ml"] <= 1.0:
            return None if got in (("exc", "ValueError"),) else f"expected ValueError, got {ops.brief(got)}"
        if got[0] == "exc":
            return f"raised {got[1]}"
        return _generated(a, got)
    if f == "survey":
        return _surveyed(a, got)
    if f == "tally":
        return _tallied(a, got)
    rows = world["pmu"][a["p"]]
    fn, sign = (M.thrust_at, 1) if f == "thrust" else (M.spherocity_at, -1)
    return ops.shape_mismatch(rows, fn, sign, a["axis"], got)


def draw(rng, tier):
    world = ops.make_world(rng, npmu=2, nev=0, special=0.0, nord=2, big=0.04)
    menu = []
    for _ in range(rng.randint(1, 4)):
        f = rng.choice(["generate", "generate", "thrust", "spherocity"])
        seed = rng.choice(SEEDS + [rng.getrandbits(40)]) if rng.random() < 0.85 else None
        if f == "generate":
            menu.append({"f": f, "n_rows": rng.choice([0, 1, 2, 5, 8, 20, 64] + [rng.choice([1000, 1777, 4000])] * (rng.random() < 0.4)), "emax": rng.choice([1.0, 100.0, 13000.0, 1e-3]),
                         "ml": rng.choice([None, 0.0, 1.0, 0.5, 0.3, 0.9, 1.5, -0.1]), "seed": seed, "np": rng.random() < 0.2})
        else:
            menu.append({"f": f, "p": rng.randrange(2), "axis": rng.random() < 0.5, "seed": seed})
    if rng.random() < 0.06:
        menu.append({"f": "survey", "shape": rng.choice(["thrust", "spherocity"]), "seed": rng.getrandbits(40)})
    if rng.random() < 0.1:
        menu.append({"f": "tally", "n_rows": rng.choice([6, 12, 16]), "ml": rng.choice([0.3, 0.5, 0.7]), "seed": rng.getrandbits(40)})
    if rng.random() < 0.5:
        # the same with another seed, and with none
        menu += [dict(a, seed=rng.choice(SEEDS + [None])) for a in menu[:2] if a["f"] not in ("survey", "tally")]
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        prog = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.2:
                prog.append({"f": "reseed", "how": rng.choice(["np", "py", "draw"]), "v": rng.randrange(1000)})
            else:
                prog.append(dict(rng.choice(menu)))
        clients.append(prog)
    return {"world": world, "clients": clients, "g": rng.randrange(1 << 30), **sched(rng, rng.random() < 0.5)}


_Z = []
_REAL_RNG = np.random.default_rng


def seam(state):
    """Generators made without a seed get one from the run."""
    def default_rng(seed=None):
        if seed is None:
            seed = state.getrandbits(64)
        return _REAL_RNG(seed)
    np.random.default_rng = default_rng


def alone(gcl, req):
    world, a = req
    return ops.canon(gcl, run_op(ops.Objs(gcl, world), a))


def run(gcl, spec):
    from ..runner import Outcome, make_sim, attempt, dig, finish_sim, RETRY
    if not _Z:
        _Z.append(zygote.Zygote(lambda req: alone(gcl, req)))
    z = _Z[0]
    world = spec["world"]
    out = Outcome()
    objs = ops.Objs(gcl, world)
    sim = make_sim(spec)
    np.random.seed(spec["g"] % 2**32)
    random.seed(spec["g"])
    seam(random.Random(spec["g"]))
    results, seen = [], {}

    def one(c, i, a):
        r, hit = attempt(sim, c, i, run_op, objs, a)
        got = ops.canon(gcl, r)
        out.ops += 1
        out.bump("op_" + a["f"] + ("" if a.get("seed") is None else "_seeded"))
        if hit and isinstance(r, BaseException):
            out.bump("failed_ops")
        else:
            results.append((c.idx, i, a, got))
        if a.get("seed") is not None:
            dig(out, got)
        return r, hit

    def body(prog):
        def go(c):
            for a in prog:
                r, hit = one(c, a["n"], a)
                if hit and isinstance(r, BaseException):
                    one(c, RETRY + a["n"], a)
        return go

    for prog in spec["clients"]:
        sim.add(body(prog))
    if spec.get("fault_kinds"):
        sim.faultable = lambda c, o: o < RETRY
    try:
        sim.run()
    finally:
        np.random.default_rng = _REAL_RNG
    by_args = {}
    for ci, i, a, got in results:
        what = f"{a['f']}{ {k: v for k, v in a.items() if k not in ('f', 'n')} }"
        m = judge(world, a, got)
        if m:
            out.bad(f"{ops.brief(what, 200)}: {m}", ci, i)
            continue
        if a.get("seed") is None:
            continue
        call = {k: v for k, v in a.items() if k != "n"}
        key = json.dumps([call, world["pmu"] if "p" in a else 0], sort_keys=True)
        st, ref = z.ask((world, call), key)
        if st != "ok":
            ref = ("exc", ref.split(":")[0]) if st == "error" else (st, ref)
        out.bump("compared_with_fresh_process")
        if not identical(got, ref):
            out.bad(f"{ops.brief(what, 200)} gives {ops.brief(got, 120)}, alone in a fresh process {ops.brief(ref, 120)}", ci, i)
        if a["f"] in ("thrust", "spherocity"):
            # with or without its axis, the value is the same
            other = dict(call, axis=not a["axis"])
            st, ref = z.ask((world, other), json.dumps([other, world["pmu"]], sort_keys=True))
            with_axis, alone_ = (got, ref) if a["axis"] else (ref, got)
            if st == "ok" and isinstance(alone_, float):
                if not identical(with_axis[1][0], alone_):
                    out.bad(f"{ops.brief(what, 200)}: {ops.brief(alone_)} without its axis, {ops.brief(with_axis)} with it", ci, i)
        if a["f"] == "generate" and got[0] == "pmu" and a["n_rows"]:
            k2 = (a["n_rows"], a["emax"], a["ml"])
            for s2, g2 in by_args.setdefault(k2, {}).items():
                if s2 != a["seed"] and np.array_equal(g2[1], got[1]):
                    out.bad(f"seeds {s2} and {a['seed']} give the same momenta", ci, i)
            by_args[k2][a["seed"]] = got
    unseeded = {}
    for ci, i, a, got in results:
        if a["f"] == "generate" and a.get("seed") is None and got[0] == "pmu" and a["n_rows"]:
            k = got[1].tobytes()
            if k in unseeded:
                out.bad("two generations without a seed gave the same momenta", ci, i)
            unseeded[k] = True
    finish_sim(sim, out)
    return out

