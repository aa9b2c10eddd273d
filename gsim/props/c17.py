from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner
from .. import gen

ID = "C17"
RUNS, QUICK, THOROUGH = 8, 600, 8000
RULE = ("a run is 1-3 clients assigning shared candidates to shared foci and tagging clusters of shared events, with "
        "seeded interleaving and, in half of the runs, injected failures; non-trivial: a context switch or a fault; "
        "distinct: different sequence of (client, code position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=3, nev=1, special=0.0, nord=3, big=0.04)
    if rng.random() < 0.4:
        # crowded: candidates near one another, so that a greedy choice loses
        base = gen.ordinary(rng, 1)[0]
        for i in (0, 1):
            world["pmu"][i] = [[gen.r6(v * rng.uniform(0.8, 1.2)) for v in base[:3]] + [gen.r6(base[3] * 1.5)]
                               for _ in range(rng.randint(2, 6))]
    if rng.random() < 0.2:
        world["pmu"][2] = [list(world["pmu"][2][0])] * rng.randint(1, 3)  # no spread at all
    names = ["arg_closest"] * 3 + ["monte_carlo_tag"] * 3 + ["rapidity", "pt", "phi", "aggregate_momenta"]
    return {"world": world, "clients": clients(rng, world, names, nc=(1, 2, 2, 3)), **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    return runner.run_shared(gcl, spec, frozen=True, audit=True)
