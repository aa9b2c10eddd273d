from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner
from .. import ops_pdg

ID = "C15"
RUNS, QUICK, THOROUGH = 8, 350, 5000
RULE = ("a run is 1-3 clients looking up properties and names of shared and private particle codes, half of the runs "
        "with injected failures, then an audit of every shared set of codes; non-trivial: a context switch or a "
        "fault; distinct: different sequence of (client, code position) steps")


def draw(rng, tier):
    world = {"pmu": [], "ev": [], "tidy": [],
             "codes": [ops_pdg.codes(rng, unknown=0.15) for _ in range(rng.randint(1, 3))]}
    return {"world": world, "clients": clients(rng, world, ops.families("pdg"), nc=(1, 2, 2, 3), nops=(3, 6)),
            **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    return runner.run_shared(gcl, spec, frozen=True, audit=True)
