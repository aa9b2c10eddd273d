import os
import random as pyrandom
import sys
import warnings

import numpy as np

from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner

ID = "C04"
RUNS, QUICK, THOROUGH = 8, 600, 8000
RULE = ("a run is 1-3 clients, each with its own drawn thread settings under drawn process-wide settings, querying "
        "shared objects with seeded interleaving and, in half of the runs, injected failures; all settings are "
        "compared after every operation; non-trivial: a context switch or a fault; distinct: different sequence "
        "of (client, code position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=rng.choice([2, 3]), nev=rng.choice([0, 1]), special=0.15, nord=1)
    names = ops.families("mom", "assign" if world["ev"] else "mom") + (ops.families("graph") if world["ev"] else [])
    # pandas itself swaps the warning filters inside this query
    names = [n for n in names if n not in ("find_vertex", "clusters")]
    if rng.random() < 0.5:
        names = [n for n in ("delta_R", "cluster_coeff", "arg_closest", "delta_R_aff", "combined_mass", "eta",
                             "mass", "rapidity", "phi", "thrust", "spherocity", "parton_hadron_distance",
                             "centroid_prune", "weighted_centroid") if n in names]
    prog = clients(rng, world, names, nc=(1, 2, 2, 3))
    return {
        "world": world, "clients": prog, **sched(rng, rng.random() < 0.5),
        "warn": rng.choice(["ignore", "ignore", "error"]),
        "proc": {"np_seed": rng.randrange(10 ** 6), "py_seed": rng.randrange(10 ** 6),
                 "filters": rng.randint(0, 3), "precision": rng.choice([8, 4, 12]),
                 "env": rng.random() < 0.5},
        "own": [{"threads": rng.choice([1, 2, 3, 5, 8]), "err": rng.choice(["ignore", "warn"]),
                 "buf": rng.choice([8192, 4096 * 4]), "call": rng.random() < 0.3} for _ in prog],
    }


def _note(*a):
    pass


class Watch(runner.Settings):
    def __init__(self, gcl, spec):
        self.spec = spec
        super().__init__(gcl)

    def enter(self, c):
        own = self.spec["own"][c.idx % len(self.spec["own"])]
        self.nb.set_num_threads(own["threads"])
        np.seterr(divide=own["err"], invalid=own["err"])
        np.setbufsize(own["buf"])
        np.set_printoptions(precision=self.spec["proc"]["precision"])
        if own["call"]:
            np.seterrcall(_note)

    def after(self, c):
        m = super().after(c)
        return m or self.final()


def run(gcl, spec):
    proc = spec["proc"]
    keep = list(warnings.filters)
    try:
        for k in range(proc["filters"]):
            warnings.filterwarnings("ignore", message=f"nothing in particular {k}", category=DeprecationWarning)
        if spec["warn"] == "error":
            warnings.filterwarnings("error", category=gcl.base.NumericalStabilityWarning)
        np.random.seed(proc["np_seed"])
        pyrandom.seed(proc["py_seed"])
        if proc["env"]:
            os.environ["GSIM_MARK"] = str(proc["np_seed"])
        return runner.run_shared(gcl, spec, audit=False, watch=Watch(gcl, spec))
    finally:
        warnings.filters[:] = keep
        warnings._filters_mutated()
        os.environ.pop("GSIM_MARK", None)
