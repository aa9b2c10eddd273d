import random as pyrandom

import numpy as np

from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner
from .. import ops_bad  # noqa: F401

ID = "C19"
RUNS, QUICK, THOROUGH = 10, 500, 7000
FASTJET = True
RULE = ("a run is 1-3 clients asking for what cannot be answered, besides ordinary queries of the same shared objects, with seeded "
        "interleaving and, in a third of the runs, injected failures; inputs and process-wide and thread settings are compared after "
        "every operation; non-trivial: a context switch or a fault; distinct: different sequence of (client, code position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=2, nev=1, special=0.1, nord=2)
    world["jets"] = True
    names = ["refuse"] * 12 + ["pt", "eta", "mass", "delta_R", "cluster_coeff", "hard_mask", "hard_descendants", "hierarchy", "combined_mass",
                               "aggregate_momenta", "arg_closest", "monte_carlo_tag", "distance_graph", "split_hardest"]
    return {"world": world, "clients": clients(rng, world, names, nc=(1, 2, 2, 3), nops=(3, 7), focus=0.2),
            "own": [{"threads": rng.choice([1, 2, 3, 5, 8]), "err": rng.choice(["ignore", "warn"])} for _ in range(3)],
            "np_seed": rng.randrange(10 ** 6), **sched(rng, rng.random() < 0.35)}


class Watch(runner.Settings):
    def __init__(self, gcl, spec):
        self.spec = spec
        super().__init__(gcl)

    def enter(self, c):
        own = self.spec["own"][c.idx]
        self.nb.set_num_threads(own["threads"])
        np.seterr(divide=own["err"], invalid=own["err"])

    def after(self, c):
        return super().after(c) or self.final()


def run(gcl, spec):
    np.random.seed(spec["np_seed"])
    pyrandom.seed(spec["np_seed"])
    return runner.run_shared(gcl, spec, frozen=True, audit=True, watch=Watch(gcl, spec))


