from .shared import *  # noqa: F401,F403
from .shared import REAL as _REAL, STUB as _STUB, clients, sched, ops, runner
from .. import gen, team

ID = "C10"
RUNS, QUICK, THOROUGH = 6, 900, 20000
REAL = _REAL + ["one run in four: the compiled parallel kernels with 1-8 real workers"]
STUB = _STUB + ["the team of parallel workers: kernels run from their Python source by a simulated team whose division, order "
                "and interleaving (array access by array access) are seeded; contents of memory nobody has written"]
RULE = ("a run is 1-3 clients asking for results of parallel kernels on shared momenta with seeded worker counts, divisions of the "
        "iterations and interleaving of workers; non-trivial: a team of two or more workers took turns, or clients switched; "
        "distinct: different sequence of worker turns and client steps")

NAMES = (["delta_R"] * 3 + ["cluster_coeff"] * 3 + ["arg_closest"] * 3
         + ["delta_R_aff", "aggregate_momenta", "centroid_prune", "parton_hadron_distance", "monte_carlo_tag", "rapidity", "phi"])


class Crew:
    """Sees to it that worker counts are honoured, and put back."""

    def __init__(self, lab, base):
        self.lab, self.base, self.op = lab, base, {}
        self.size = {}

    def enter(self, c):
        k = self.base[c.idx % len(self.base)]
        self.lab.nb.set_num_threads(k)
        self.size[c.idx] = k

    def before(self, c):
        self.lab.sizes[c.idx] = []

    def after(self, c):
        a = self.op.get(c.idx)
        now = self.lab.nb.get_num_threads()
        if now != self.size[c.idx]:
            m = f"the caller's worker count was {self.size[c.idx]}, now {now}"
            self.lab.nb.set_num_threads(self.size[c.idx])
            return m
        if self.lab.problem:
            m, self.lab.problem = self.lab.problem, None
            return m
        if a and "threads" in a:
            for size, rows in self.lab.sizes.get(c.idx, []):
                if size > a["threads"] or (size != a["threads"] and rows >= 2 * a["threads"]):
                    return f"asked for {a['threads']} workers, {size} were used"
        return None


def draw(rng, tier):
    real = rng.random() < 0.25
    world = ops.make_world(rng, npmu=3, nev=1, special=0.05, nord=3, big=0.04)
    if real or rng.random() < 0.3:
        hi = 48 if real else 12
        for i in (0, 1):
            if rng.random() < 0.7:
                world["pmu"][i] = gen.ordinary(rng, rng.randint(2, hi))
    cl = clients(rng, world, NAMES, nc=(1, 1, 2, 3), nops=(1, 4))
    for prog in cl:
        for a in prog:
            if "threads" in a:
                a["threads"] = rng.choice([1, 2, 2, 3, 4, 5, 7, 8])
    return {"world": world, "clients": cl, "real": real, "base": [rng.randint(1, 8) for _ in range(3)],
            "team": rng.randrange(1 << 30), **sched(rng, rng.random() < 0.25)}


_LAB = []


def lab_for(gcl):
    if not _LAB:
        _LAB.append(team.Lab(gcl))
    return _LAB[0]


def run(gcl, spec):
    lab = lab_for(gcl)
    lab.reset(spec["team"])
    crew = Crew(lab, spec["base"])
    if not spec["real"]:
        lab.install()
    try:
        out = runner.run_shared(gcl, spec, frozen=True, audit=False, watch=crew)
    finally:
        lab.remove()
    if lab.problem:
        out.bad(lab.problem)
    for k, v in lab.stats.items():
        out.bump(k, v)
    if spec["real"]:
        out.bump("runs_with_compiled_kernels")
    out.log = (out.log * 31 ^ lab.log) & 0xFFFFFFFFFFFFFFFF
    out.distinct = [out.log] if (out.switches or lab.stats.get("team_turns", 0) > 1 or out.faults) else []
    return out
