"""Seeded generators of physics-like inputs.  Everything is produced as plain
JSON-able lists, so a plan file holds the whole input."""
import math

# codes known to the PDG table in use, with their antiparticles where distinct
QUARKS = [1, 2, 3, 4, 5]
LEPTONS = [(11, -12), (13, -14), (15, -16)]
HADRONS = [211, -211, 111, 321, -321, 2212, -2212, 2112, 130, 310, 521, -521, 411, -411, 3122]
NAMED = {21: "g", 6: "t", -6: "t~", 24: "W+", -24: "W-", 23: "Z0", 25: "h0"}


# longer than any block, table or small-integer index a program may use
LONG = [256, 257, 300, 513, 520, 1024, 1100, 1300]


def r6(x):
    """Round so that JSON text and the float are the same and minimised files
    stay readable."""
    return float(f"{x:.6g}")


def momentum(rng, kind=None):
    """One four-momentum.  Kinds cover the ordinary and the degenerate."""
    if kind is None:
        u = rng.random()
        kind = "massive" if u < 0.62 else "massless" if u < 0.8 else "soft" if u < 0.88 else \
            "hardfwd" if u < 0.94 else "axis"
    pt = rng.uniform(0.3, 80.0)
    eta = rng.uniform(-3.5, 3.5)
    phi = rng.uniform(-math.pi, math.pi)
    m = rng.choice([0.13957, 0.93827, 1.5, 4.8, 80.4, 173.0]) * rng.uniform(0.8, 1.2)
    if kind == "massless":
        m = 0.0
    elif kind == "soft":
        pt = rng.uniform(0.001, 0.05)
    elif kind == "hardfwd":
        eta = rng.choice([-1, 1]) * rng.uniform(4.0, 6.0)
    elif kind == "axis":  # travels exactly along the beam
        pz = r6(rng.choice([-1, 1]) * rng.uniform(1.0, 300.0))
        return [0.0, 0.0, pz, r6(abs(pz) + rng.choice([0.0, 1.0, 25.0]))]
    elif kind == "zero":
        return [0.0, 0.0, 0.0, 0.0]
    elif kind == "rest":
        return [0.0, 0.0, 0.0, r6(rng.uniform(0.1, 200.0))]
    elif kind == "central":  # exactly zero pz
        px, py = r6(pt * math.cos(phi)), r6(pt * math.sin(phi))
        return [px, py, 0.0, r6(math.hypot(px, py) + m)]
    px, py, pz = r6(pt * math.cos(phi)), r6(pt * math.sin(phi)), r6(pt * math.sinh(eta))
    if rng.random() < 0.04:  # along an axis, at the seam of the azimuth
        px, py = rng.choice([(-r6(pt), 0.0), (-r6(pt), -0.0), (r6(pt), -0.0), (0.0, r6(pt)), (-0.0, -r6(pt))])
    e = math.sqrt(px * px + py * py + pz * pz + m * m)
    if kind == "spacelike":
        e = abs(pz) + 0.6 * (math.sqrt(px * px + py * py + pz * pz) - abs(pz))
    return [px, py, pz, float(e) if kind == "massless" else r6(e * 1.00001)]


def momenta(rng, n, special=0.08, kinds=("axis", "zero", "rest", "spacelike", "central")):
    out = []
    for _ in range(n):
        if special and rng.random() < special:
            out.append(momentum(rng, rng.choice(list(kinds))))
        else:
            k = None
            while True:
                p = momentum(rng, k)
                if special == 0 and (p[0] == 0.0 and p[1] == 0.0):
                    continue
                break
            out.append(p)
    return out


def ordinary(rng, n):
    """Finite eta and rapidity, non-zero pt, time-like."""
    return [momentum(rng, "massive" if rng.random() < 0.7 else "massless") for _ in range(n)]


def size(rng, lo=1, hi=24):
    u = rng.random()
    if u < 0.08:
        return lo
    if u < 0.16:
        return min(hi, lo + 1)
    if u < 0.75:
        return rng.randint(lo, min(hi, 12))
    return rng.randint(lo, hi)


class _Ev:
    def __init__(self, rng):
        self.rng = rng
        self.rows = []  # pdg, status, src, dst, color, anticolor
        self.nv = 0
        self.line = 100
        self.deep = 0
        self.crowd = 1

    def vtx(self):
        self.nv += 1
        return -self.nv

    def col(self):
        self.line += 1
        return self.line

    def add(self, pdg, status, src, dst, c=0, a=0):
        self.rows.append([pdg, status, src, dst, c, a])
        return len(self.rows) - 1


def hadron(rng):
    """A status of the hadronisation stage; its ends are seldom seen."""
    return rng.randint(81, 89) if rng.random() < 0.97 else rng.choice([80, 90])


def event(rng, small=False):
    """A hard process, its showers, hadronisation and decays, as a DAG whose
    particles are edges.  Negative vertices are internal, positive ones are
    the end points of final-state particles."""
    ev = _Ev(rng)
    root = 0
    v1, v2 = ev.vtx(), ev.vtx()
    ev.add(2212, -12, root, v1)
    ev.add(2212, -12, root, v2)
    hard = ev.vtx()
    # underlying event vertex fed by the beams
    mpi = ev.vtx() if rng.random() < 0.75 else None
    inc = rng.choice([(21, 21), (2, -2), (1, -1)])
    for v, p in zip((v1, v2), inc):
        if rng.random() < 0.4:  # initial-state shower step
            w = ev.vtx()
            ev.add(p, -41, v, w)
            ev.add(p, -21, w, hard)
            g = ev.vtx()
            ev.add(21, 43, w, g, ev.col(), ev.col())
            _hadronise(ev, [g])
        else:
            ev.add(p, -21, v, hard)
    topo = rng.choice(["ttbar", "wjet", "zz", "dijet", "ttj", "single", "hz"] if not small else
                      ["wjet", "dijet", "single", "ttj", "ttbar"])
    rare = rng.random()
    if rare < 0.025:
        topo = "multi"
    ev.deep = rng.randint(40, 160) if 0.025 < rare < 0.045 else 0
    ev.crowd = rng.choice([8, 30, 90]) if 0.045 < rare < 0.06 else 1
    pend = []  # (pdg, vertex to leave from, colour, anticolour)
    L = ev.col
    if topo == "ttbar":
        a, b = L(), L()
        pend = [(6, hard, a, 0, 1), (-6, hard, 0, b, 1)]
    elif topo == "ttj":
        a, b = L(), L()
        pend = [(6, hard, a, 0, 1), (-6, hard, 0, b, 1), (21, hard, b, a, 0)]
    elif topo == "wjet":
        a = L()
        pend = [(rng.choice([24, -24]), hard, 0, 0, 1), (rng.choice(QUARKS), hard, a, 0, 0)]
    elif topo == "zz":
        pend = [(23, hard, 0, 0, 1), (23, hard, 0, 0, 1)]
    elif topo == "hz":
        pend = [(25, hard, 0, 0, 1), (23, hard, 0, 0, 1)]
    elif topo == "single":
        pend = [(6, hard, L(), 0, 1), (-5, hard, 0, L(), 0)]
    elif topo == "multi":
        ring = [L() for _ in range(rng.randint(9, 13))]
        pend = [(21, hard, x, y, 0) for x, y in zip(ring, ring[1:] + ring[:1])]
    else:
        a, b = L(), L()
        k = rng.randint(2, 3)
        cand = [(21, hard, a, b, 0), (21, hard, b, a, 0), (rng.choice(QUARKS), hard, L(), 0, 0)]
        pend = cand[:k]
    rng.shuffle(pend)
    endpoints = []  # (vertex, singlet id) of showered coloured partons
    _decay_level(ev, pend, endpoints, small)
    if mpi is not None:
        for v in (v1, v2):
            ev.add(21, -31, v, mpi)
        for _ in range(rng.randint(1, 3)):
            w = ev.vtx()
            ev.add(rng.choice([21, 1, -2]), 33, mpi, w, ev.col(), 0)
            endpoints.append((w, None))
    groups = {}
    rest = []
    for v, s in endpoints:
        if s is None:
            rest.append(v)
        else:
            groups.setdefault(s, []).append(v)
    for vs in groups.values():
        _hadronise(ev, vs, small)
    while rest:
        k = min(len(rest), rng.randint(1, 4))
        _hadronise(ev, rest[:k], small)
        rest = rest[k:]
    rows = ev.rows
    final = [r[3] > 0 for r in rows]
    if rng.random() < 0.4:
        # relabel vertices so that ids are neither dense nor ordered
        ids = sorted({r[2] for r in rows} | {r[3] for r in rows})
        base = rng.choice([2, 2, 2, 300, 32700, 65500, 2 ** 31 - 2 - 3 * len(ids)])
        pool = list(range(base, base + 3 * len(ids)))
        rng.shuffle(pool)
        # some records tell final particles by their vertices, others do not
        signs = rng.choice(["end", "end", "plus", "any"])
        m = {}
        for i, v in enumerate(ids):
            up = v > 0 if signs == "end" else signs == "plus" or rng.random() < 0.5
            m[v] = pool[i] if up else -pool[i]
        rows = [[r[0], r[1], m[r[2]], m[r[3]], r[4], r[5]] for r in rows]
    if rng.random() < 0.15:
        # written in another order than it came about
        order = list(range(len(rows)))
        rng.shuffle(order)
        rows = [rows[i] for i in order]
        final = [final[i] for i in order]
    if rng.random() < 0.1:
        off = rng.choice([400, 32700, 65500, 10 ** 6])
        rows = [r[:4] + [c and c + off for c in r[4:]] for r in rows]
    if rng.random() < 0.3:
        # outgoing partons sharing few colours: several singlets per parton
        pool = [0] + [90 + i for i in range(rng.randint(1, 3))]
        for r in rows:
            if abs(r[1]) == 23 and rng.random() < 0.8:
                r[4], r[5] = rng.choice(pool), rng.choice(pool)
    n = len(rows)
    return {
        "pdg": [r[0] for r in rows],
        "status": [r[1] for r in rows],
        "edges": [[r[2], r[3]] for r in rows],
        "color": [[r[4], r[5]] for r in rows],
        "helicity": [rng.choice([-1, 1, 9, 0]) for _ in range(n)],
        "final": final,
        "pmu": ordinary(rng, n),
        "weights": weights(rng, n) if rng.random() < 0.35 else [],
    }


def weights(rng, n):
    """Edge weights; sometimes zero in places, or everywhere."""
    w = [r6(rng.uniform(0.1, 9.0)) for _ in range(n)]
    how = rng.random()
    if how < 0.1:
        return [0.0] * n
    if how < 0.3:
        return [rng.choice([v, v, 0.0, -v]) for v in w]
    return w


def _decay_level(ev, pend, endpoints, small, singlet=None):
    """Emit a set of sibling partons, then shower and decay each."""
    rng = ev.rng
    placed = []
    for pdg, src, c, a, res in pend:
        if not res and abs(pdg) in range(11, 17) and rng.random() < 0.4:
            ev.nv += 1  # an outgoing lepton which is itself final
            ev.add(pdg, 23, src, ev.nv, c, a)
            continue
        coloured = not res and abs(pdg) in (1, 2, 3, 4, 5, 21)
        if coloured and placed and placed[-1][5] and rng.random() < 0.12:
            # annihilates with its sibling where both end, without showering
            v = placed[-1][1]
            ev.add(pdg, 23, src, v, c, a)
            placed[-1] = (None, v, 0, 0, 0, True)
            continue
        v = ev.vtx()
        ev.add(pdg, -22 if res else (23 if rng.random() < 0.5 else -23), src, v, c, a)
        placed.append((pdg, v, c, a, res, coloured))
    for pdg, v, c, a, res, _ in placed:
        if pdg is None:
            _hadronise(ev, [v], small, direct=True)
            continue
        coloured = abs(pdg) in (1, 2, 3, 4, 5, 6, 21)
        steps = rng.choice([0, 0, 1, 1, 2]) if not small else rng.choice([0, 1])
        if ev.deep:
            steps, ev.deep = ev.deep, 0
        for _ in range(steps):
            w = ev.vtx()
            ev.add(pdg, -44, v, w, c, a)
            if coloured and rng.random() < (0.5 if steps < 9 else 0.1):
                g = ev.vtx()
                ev.add(21, 51, v, g, ev.col(), c or a)
                endpoints.append((g, None if singlet is None else singlet))
            v = w
        if not res:
            if coloured:
                if rng.random() < 0.6:
                    w = ev.vtx()
                    ev.add(pdg, -71, v, w, c, a)
                    v = w
                endpoints.append((v, singlet))
            else:
                # leptons, photons: straight to the final state
                ev.nv += 1
                ev.add(pdg, 1, v, ev.nv)
            continue
        if abs(pdg) in (23, 24) and rng.random() < 0.08:
            # left by the hard process as it is, and decaying afterwards
            for _ in range(rng.randint(1, 3)):
                ev.nv += 1
                ev.add(rng.choice([11, -11, 22, 211]), 91, v, ev.nv)
            continue
        kids, sid = _kids(ev, pdg, v, c, a)
        _decay_level(ev, kids, endpoints, small, sid)


def _kids(ev, pdg, v, c, a):
    rng = ev.rng
    if pdg == 6:
        return [(5, v, c, 0, 0), (24, v, 0, 0, 1)], None
    if pdg == -6:
        return [(-5, v, 0, a, 0), (-24, v, 0, 0, 1)], None
    line = ev.col()
    sid = line if rng.random() < 0.7 else None  # own string or mixed
    if abs(pdg) == 24:
        s = 1 if pdg > 0 else -1
        if rng.random() < 0.6:
            u, d = rng.choice([2, 4]), rng.choice([1, 3])
            q = [(s * u, v, line, 0, 0), (-s * d, v, 0, line, 0)]
            if s < 0:
                q = [(s * u, v, 0, line, 0), (-s * d, v, line, 0, 0)]
            if rng.random() < 0.3:  # q qbar g singlet
                l2 = ev.col()
                q[0] = (q[0][0], v, q[0][2] and l2, q[0][3] and l2, 0)
                g = (21, v, line, l2, 0) if q[0][3] == l2 else (21, v, line, l2, 0)
                if q[0][2]:
                    g = (21, v, line, l2, 0)
                q.append(g)
            return q, sid
        lep, nu = rng.choice(LEPTONS)
        return [(-s * lep, v, 0, 0, 0), (-s * nu, v, 0, 0, 0)], None
    if abs(pdg) == 25 and rng.random() < 0.4:
        return rng.choice([[(23, v, 0, 0, 1), (23, v, 0, 0, 1)], [(24, v, 0, 0, 1), (-24, v, 0, 0, 1)], [(23, v, 0, 0, 1), (22, v, 0, 0, 0)]]), None
    q = rng.choice(QUARKS)
    if rng.random() < 0.7:
        return [(q, v, line, 0, 0), (-q, v, 0, line, 0)], sid
    return [(13, v, 0, 0, 0), (-13, v, 0, 0, 0)], None


def _hadronise(ev, vs, small=False, direct=False):
    """Partons whose vertices are vs meet in one hadronisation vertex."""
    rng = ev.rng
    if len(vs) == 1 and (direct or rng.random() < 0.5):
        hv = vs[0]
    else:
        hv = ev.vtx()
        for v in vs:
            ev.add(21, -73, v, hv, 1, 1)
    for _ in range(rng.randint(1, 2 if small else 4) * ev.crowd):
        if rng.random() < 0.3:
            w = ev.vtx()
            ev.add(rng.choice([111, 310, 3122, 521]), -hadron(rng), hv, w)
            for _ in range(2):
                ev.nv += 1
                ev.add(rng.choice([22, 211, -211]), 91, w, ev.nv)
        else:
            ev.nv += 1
            ev.add(rng.choice(HADRONS), hadron(rng), hv, ev.nv)
