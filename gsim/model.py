"""Independent reference model: what each public operation should return,
written from the documentation in plain Python / long-double numpy.  It never
imports graphicle."""
import csv
import glob
import itertools as it
import math
import os

import numpy as np

LD = np.longdouble
EPS = 2.3e-16


class Approx:
    """An expected float array with an element-wise absolute tolerance."""

    __slots__ = ("val", "tol")

    def __init__(self, val, tol):
        self.val = np.asarray(val, dtype=np.float64)
        self.tol = np.broadcast_to(np.asarray(tol, dtype=np.float64), self.val.shape)

    def __repr__(self):
        return f"Approx({self.val.tolist()!r})"


def _c(pmu):
    a = np.asarray(pmu, dtype=np.float64).reshape(-1, 4)
    return tuple(a[:, k].astype(LD) for k in range(4))


def comp(pmu, name):
    return np.asarray(pmu, dtype=np.float64).reshape(-1, 4)[:, "xyze".index(name)].copy()


def pt(pmu):
    x, y, _, _ = _c(pmu)
    v = np.hypot(x, y)
    return Approx(v, 1e-12 * v + 1e-300)


def _eta(pmu):
    x, y, z, _ = _c(pmu)
    t = np.hypot(x, y)
    with np.errstate(all="ignore"):
        v = np.where(t > 0, np.arcsinh(z / np.where(t > 0, t, 1)), np.where(z == 0, np.nan, np.copysign(np.inf, z)))
    return v


def _eta_tol(v):
    with np.errstate(all="ignore"):
        tol = 1e-11 + 8 * EPS * np.cosh(np.minimum(np.abs(np.nan_to_num(v, posinf=0, neginf=0)), 18.0)) ** 2
    return tol.astype(np.float64)


def eta(pmu):
    v = _eta(pmu)
    return Approx(v, _eta_tol(v))


def _rap(pmu):
    _, _, z, e = _c(pmu)
    az = np.abs(z)
    with np.errstate(all="ignore"):
        d = e - az
        v = np.where(np.abs(d) > 1e-10, 0.5 * np.log((e + az) / np.where(d > 0, d, 1)), np.inf)
    return np.copysign(v, z)


def _rap_tol(pmu):
    _, _, z, e = _c(pmu)
    az = np.abs(z)
    d = np.maximum(np.abs(e - az), LD(1e-10))
    return (1e-11 + 8 * EPS * (e / d)).astype(np.float64)


def rapidity(pmu):
    return Approx(_rap(pmu), _rap_tol(pmu))


def _phi(pmu):
    x, y, _, _ = _c(pmu)
    v = np.arctan2(y, x)
    # documented: NaN where pT is below the stability threshold (1e-10)
    return np.where(np.hypot(x, y) <= LD(1e-10), np.nan, v)


def phi(pmu):
    return Approx(_phi(pmu), 1e-11)


def theta(pmu):
    x, y, z, _ = _c(pmu)
    return Approx(np.arctan2(np.hypot(x, y), z), 1e-11)


def _rdts(a, b):
    a, b = np.abs(a), np.abs(b)
    d = a - b
    return np.copysign(np.sqrt(np.abs(d)), d) * np.sqrt(a + b)


def _rdts_tol(a, b, v):
    s = np.maximum(np.abs(a), np.abs(b))
    # error of the square from rounding of the inputs: ~ 8 eps s^2
    e2 = 16 * EPS * (s * s).astype(np.float64)
    v = np.abs(v).astype(np.float64)
    return np.minimum(np.sqrt(e2), e2 / np.maximum(v, 1e-300)) * 4 + 1e-13 * s.astype(np.float64)


def mass(pmu):
    x, y, z, e = _c(pmu)
    p = np.sqrt(x * x + y * y + z * z)
    v = _rdts(e, p)
    return Approx(v, _rdts_tol(e, p, v))


def mass_t(pmu):
    _, _, z, e = _c(pmu)
    v = _rdts(e, z)
    return Approx(v, _rdts_tol(e, z, v))


def _dphi(p1, p2):
    x1, y1, _, _ = _c(p1)
    x2, y2, _, _ = _c(p2)
    cross = y1[:, None] * x2[None] - x1[:, None] * y2[None]
    dot = x1[:, None] * x2[None] + y1[:, None] * y2[None]
    return np.abs(np.arctan2(cross, dot))


def delta_r(p1, p2, pseudo=True):
    r1, r2 = (_eta(p1), _eta(p2)) if pseudo else (_rap(p1), _rap(p2))
    t1, t2 = (_eta_tol(r1), _eta_tol(r2)) if pseudo else (_rap_tol(p1), _rap_tol(p2))
    with np.errstate(all="ignore"):
        d = r1[:, None] - r2[None]
    d = np.where(np.isnan(d), 0.0, d)
    tol = 2 * (t1[:, None] + t2[None]) + 1e-10
    return Approx(np.hypot(d, _dphi(p1, p2)), tol)


def shift_rapidity(pmu, shift):
    x, y, z, e = _c(pmu)
    ch, sh = np.cosh(LD(shift)), np.sinh(LD(shift))
    v = np.stack([x, y, ch * z + sh * e, ch * e + sh * z], -1)
    s = (ch * np.abs(z) + np.abs(sh) * np.abs(e) + ch * np.abs(e))[:, None]
    return Approx(v, 1e-12 * s.astype(np.float64) + 1e-13)


def shift_phi(pmu, shift):
    x, y, z, e = _c(pmu)
    c, s = np.cos(LD(shift)), np.sin(LD(shift))
    v = np.stack([c * x - s * y, s * x + c * y, z, e], -1)
    return Approx(v, 1e-12 * np.hypot(x, y)[:, None].astype(np.float64) + 1e-300)


def shift_eta_experimental(pmu, shift):
    x, y, z, e = _c(pmu)
    t = np.hypot(x, y)
    v = np.stack([x, y, t * np.sinh(_eta(pmu) + LD(shift)), np.full_like(e, np.nan)], -1)
    tol = np.zeros(v.shape)
    tol[:, 2] = (np.abs(t * np.cosh(_eta(pmu) + LD(shift)))).astype(np.float64) * (2 * _eta_tol(_eta(pmu)) + 1e-11)
    return Approx(v, tol)


def total(pmu):
    a = np.asarray(pmu, dtype=np.float64).reshape(-1, 4)
    return np.array([math.fsum(a[:, k]) for k in range(4)])


def resultant(pmu, pseudo=True):
    t = total(pmu)[None]
    r = _eta(t) if pseudo else _rap(t)
    tol = (_eta_tol(r) if pseudo else _rap_tol(t)) + 1e-9
    scale = float(np.sum(np.abs(np.asarray(pmu, float))))
    lead = max(1e-12, float(math.hypot(t[0, 0], t[0, 1])))
    amp = 1e-14 * scale / lead
    return Approx([float(r[0]), float(_phi(t)[0])], [float(tol[0]) + 50 * amp * math.cosh(min(8, abs(float(r[0])))), 1e-10 + amp])


def weighted_centroid(pmu, pseudo=True):
    x, y, _, _ = _c(pmu)
    t = np.hypot(x, y)
    r = _eta(pmu) if pseudo else _rap(pmu)
    rm = float((r * t).sum() / t.sum())
    pm = float((_phi(pmu) * t).sum() / t.sum())
    pm = math.atan2(math.sin(pm), math.cos(pm))
    return Approx([rm, pm], 1e-9)


def combined_mass(pmu, weight=None):
    a = np.asarray(pmu, dtype=np.float64).reshape(-1, 4).astype(LD)
    if weight is not None:
        a = np.asarray(weight, dtype=np.float64).astype(LD).reshape(-1, 1) * a
    t = a.sum(axis=0)
    m2 = t[3] ** 2 - t[0] ** 2 - t[1] ** 2 - t[2] ** 2
    s2 = float((np.abs(a).sum(axis=0) ** 2).sum())
    e2 = 64 * EPS * s2
    v = math.sqrt(m2) if m2 > 0 else 0.0
    return Approx(v, min(math.sqrt(e2), e2 / max(v, 1e-300)) + 1e-12 * abs(v))


def aggregate(pmu, masks):
    a = np.asarray(pmu, dtype=np.float64).reshape(-1, 4)
    v = [[math.fsum(a[np.asarray(m, bool), k]) for k in range(4)] for m in masks]
    return Approx(np.array(v).reshape(-1, 4), 1e-11 * (np.abs(a).sum() + 1e-30))


def c_parameter(pmu):
    p = np.asarray(pmu, dtype=np.float64).reshape(-1, 4)[:, :3].astype(LD)
    n = np.sqrt((p * p).sum(1))
    q = n[:, None] * n[None]
    d = (p[:, None, 0] * p[None, :, 0]) + (p[:, None, 1] * p[None, :, 1]) + (p[:, None, 2] * p[None, :, 2])
    with np.errstate(all="ignore"):
        out = np.triu(2 * (q - d * d / q)).sum()
    return Approx(float(LD(1.5) * out / n.sum() ** 2), 1e-10)


def thrust_at(pmu, axis):
    p = np.asarray(pmu, dtype=np.float64).reshape(-1, 4)[:, :3]
    return float(np.abs(p @ np.asarray(axis)).sum() / np.sqrt((p * p).sum(1)).sum())


def spherocity_at(pmu, axis):
    p = np.asarray(pmu, dtype=np.float64).reshape(-1, 4)[:, :3]
    c = np.cross(p, np.asarray(axis))
    return float((4 / math.pi * np.sqrt((c * c).sum(1)).sum() / np.sqrt((p * p).sum(1)).sum()) ** 2)


def _near(pmu_a, pmu_b, radius, pseudo, eps=1e-6):
    """Whether any pair sits so close to the radius that rounding decides."""
    d = delta_r(pmu_a, pmu_b, pseudo)
    with np.errstate(all="ignore"):
        return bool(np.any(np.abs(d.val - radius) < np.maximum(eps, d.tol)))


def cluster_coeffs(pmu, radius, pseudo=True):
    adj = delta_r(pmu, pmu, pseudo).val < radius
    np.fill_diagonal(adj, False)
    near = adj.astype(np.float64)
    k = near.sum(1)
    links = ((near @ near) * near).sum(1)
    out = np.where(k < 2, 0.0, links / np.maximum(k * (k - 1), 1.0))
    return Approx(np.array(out), 1e-6)


def centroid_prune(pmu, radius, mask=None, centre=None):
    a = np.asarray(pmu, dtype=np.float64).reshape(-1, 4)
    idx = np.arange(len(a)) if mask is None else np.flatnonzero(np.asarray(mask, bool))
    sub = a[idx]
    if centre is None:
        e0, p0 = resultant(sub, True).val
    else:
        e0, p0 = centre
    x, y, _, _ = _c(sub)
    ph = np.arctan2(y, x)
    dphi = np.arctan2(np.sin(ph - p0), np.cos(ph - p0))
    d = np.hypot((_eta(sub) - e0), dphi)
    out = np.zeros(len(a), bool)
    out[idx] = (d < radius)
    with np.errstate(all="ignore"):
        amb = bool(np.any(np.abs(d - radius) < 1e-6))
    return out, amb


# ------------------------------------------------------------------- graphs
def desc_vertex(edges, vertex):
    """Edges reachable from vertex.  With no outgoing edge: the edges ending
    at the vertex."""
    out = {}
    for i, (s, d) in enumerate(edges):
        out.setdefault(s, []).append((i, d))
    if vertex not in out:
        return [d == vertex for _, d in edges]
    seen, stack, hit = {vertex}, [vertex], set()
    while stack:
        v = stack.pop()
        for i, d in out.get(v, ()):
            hit.add(i)
            if d not in seen:
                seen.add(d)
                stack.append(d)
    return [i in hit for i in range(len(edges))]


def desc_edge(edges, edge):
    m = desc_vertex(edges, edge[1])
    return [a or tuple(e) == tuple(edge) for a, e in zip(m, edges)]


def nodes(edges):
    u = sorted({v for e in edges for v in e})
    return sorted(u, key=abs)


def roots(edges):
    dst = {d for _, d in edges}
    return [s not in dst for s, _ in edges]


def leaves(edges):
    src = {s for s, _ in edges}
    return [d not in src for _, d in edges]


def matrix(edges, weights=None):
    ids = sorted({v for e in edges for v in e})
    pos = {v: i for i, v in enumerate(ids)}
    m = np.zeros((len(ids), len(ids)))
    for k, (s, d) in enumerate(edges):
        m[pos[s], pos[d]] += 1 if not weights else weights[k]
    return m


def hadron_vertices(edges, status):
    return sorted({e[0] for e, s in zip(edges, status) if 80 <= abs(s) <= 90})


def find_vertex(edges, pdg, pin, pout):
    ins, outs = {}, {}
    for (s, d), p in zip(edges, pdg):
        outs.setdefault(s, set()).add(p)
        ins.setdefault(d, set()).add(p)
    return sorted(v for v in set(ins) | set(outs)
                  if set(pin or ()) <= ins.get(v, set()) and set(pout or ()) <= outs.get(v, set()))


_TABLE = None
_COLS = ("name", "latex", "charge", "mass", "masslower", "massupper", "quarks", "width",
         "widthlower", "widthupper", "i", "g", "p", "c")


def _cell(col, v):
    if col in ("name", "latex", "quarks"):
        return v
    if v == "":
        return 0.0 if col in ("i", "g", "p", "c", "charge") else math.nan
    if v == "?":
        return math.nan
    if "/" in v:
        a, b = v.split("/")
        return float(a) / float(b)
    return float(v)


def pdg_table():
    """{pdg: {column: value}} straight from the table's CSV file (MeV)."""
    global _TABLE
    if _TABLE is None:
        import importlib.util
        d = os.path.dirname(importlib.util.find_spec("mcpid").origin)
        path = sorted(glob.glob(os.path.join(d, "**", "*.csv"), recursive=True))[0]
        with open(path, newline="", encoding="utf-8") as fh:
            rows = list(csv.DictReader(line for line in fh if not line.startswith("#")))
        key = next(iter(rows[0]))
        _TABLE = {int(r[key]): {c: _cell(c, r[c]) for c in _COLS} for r in rows}
    return _TABLE


def names_of(pdgs):
    t = pdg_table()
    return {p: t[p]["name"] for p in set(pdgs)}


def unique_keys(names):
    names = list(names)
    count, out = {}, []
    for n in names:
        if names.count(n) > 1:
            out.append(f"{n}:{count.get(n, 0)}")
            count[n] = count.get(n, 0) + 1
        else:
            out.append(n)
    return out


def hard_idx(status, parts=(22, 23, 24)):
    return [i for i, s in enumerate(status) if abs(s) in parts]


def hard_descendants(ev, names, target=None, sign=False, strict=True):
    """names: pdg -> printable name.  Returns list of (key, mask) or an error
    class name."""
    idx = hard_idx(ev["status"])
    if target is not None:
        t = set(target) if sign else {abs(p) for p in target}
        keep = [i for i in idx if (ev["pdg"][i] if sign else abs(ev["pdg"][i])) in t]
        if not keep:
            return "ValueError"
        found = {ev["pdg"][i] if sign else abs(ev["pdg"][i]) for i in keep}
        if strict and t - found:
            return "ValueError"
        idx = keep
    keys = unique_keys(names[ev["pdg"][i]] for i in idx)
    out = []
    for k, i in zip(keys, idx):
        m = desc_vertex(ev["edges"], ev["edges"][i][1])
        m[i] = True
        out.append((k, m))
    return out


def hierarchy(ev, names):
    """Nested list [(key, mask | nested)], 'latent' last in each nest."""
    idx = hard_idx(ev["status"])
    flat = hard_descendants(ev, names)
    mask = dict(flat)
    keys = [k for k, _ in flat]
    at = dict(zip(keys, idx))
    if not any(abs(ev["status"][i]) == 22 for i in idx):
        return flat
    anc = {k: [j for j in keys if j != k and mask[j][at[k]]] for k in keys}
    parent = {}
    for k in keys:
        # the immediate parent is the ancestor with the most ancestors
        parent[k] = max(anc[k], key=lambda j: len(anc[j])) if anc[k] else None
    kids = {k: [j for j in keys if parent[j] == k] for k in keys}

    def build(k):
        if not kids[k]:
            return mask[k]
        sub = [(j, build(j)) for j in kids[k]]
        cover = [any(col) for col in zip(*[agg(s) for _, s in sub])]
        lat = [a != b for a, b in zip(cover, mask[k])]
        return sub + [("latent", lat)]

    tops = [k for k in keys if parent[k] is None]
    return [(k, build(k)) for k in tops if kids[k]] + [(k, build(k)) for k in tops if not kids[k]]


def agg(node, how="or"):
    """Aggregate a (nested) mask; nested groups are OR groups."""
    if node and isinstance(node[0], tuple):
        cols = zip(*[agg(v) for _, v in node])
        return [any(c) if how == "or" else all(c) for c in cols]
    return list(node)


def is_group(node):
    return bool(node) and isinstance(node[0], tuple)


def leaf_list(tree):
    out = []
    for k, v in tree:
        if k == "latent" and False:
            continue
        if is_group(v):
            out.extend(x for x in leaf_list([q for q in v if q[0] != "latent"]))
        else:
            out.append((k, v))
    return out


def drop(tree, key="latent"):
    return [(k, drop(v, key) if is_group(v) else v) for k, v in tree if k != key]


def flatten(tree, how):
    """Flat [(key, mask)].  Nested groups aggregate with OR.  A later entry
    with a repeated key replaces the value at the earlier position."""
    out = []
    if how == "leaves":
        out = leaf_list(tree)
    elif how == "agg":
        out = [(k, agg(v)) for k, v in tree]
    else:
        def walk(t):
            for k, v in t:
                if k == "latent":
                    continue
                if is_group(v):
                    out.append((k, agg(v)))
                    walk(v)
                else:
                    out.append((k, v))
        walk(tree)
    d = {}
    for k, v in out:
        d[k] = v
    return list(d.items())


def map_leaves(tree, fn, top=True):
    out = []
    for k, v in tree:
        if k == "latent" and not top:
            out.append((k, v))
        elif is_group(v):
            out.append((k, map_leaves(v, fn, False)))
        else:
            out.append((k, fn(k, v)))
    return out


def partition(ev, tree, pt_exp=-0.1):
    """(tree, ambiguous): leaves pruned at hadronisation vertices, plus a
    flag set when two distances are too close for rounding not to matter."""
    edges, pm = ev["edges"], np.asarray(ev["pmu"], float)
    n = len(edges)
    amb = False
    cover = agg(tree) if tree else [False] * n
    work = []
    for v in hadron_vertices(edges, ev["status"]):
        pin = [i for i in range(n) if edges[i][1] == v]
        if not any(cover[i] for i in pin):
            continue
        desc = desc_vertex(edges, v)
        fin = [i for i in range(n) if desc[i] and ev["final"][i]]
        if not fin:
            work.append((v, pin, fin, []))
            continue
        d = delta_r(pm[pin], pm[fin]).val
        ptw = np.hypot(pm[pin, 0], pm[pin, 1]) ** pt_exp
        d = ptw[:, None] * d
        alloc = np.argmin(d, axis=0)
        if len(pin) > 1:
            s = np.sort(d, axis=0)
            amb = amb or bool(np.any(np.abs(s[1] - s[0]) <= 1e-9 * (1 + s[1])))
        work.append((v, pin, fin, [pin[a] for a in alloc]))

    def prune(_, m):
        m = list(m)
        for v, pin, fin, who in work:
            if not any(m[i] for i in range(n) if edges[i][1] == v):
                continue
            for f, w in zip(fin, who):
                m[f] = bool(m[w])
        return m

    return map_leaves(tree, prune), amb


def color_singlets(ev, leaf, invert=False):
    out_idx = {i for i, s in enumerate(ev["status"]) if abs(s) == 23}
    cols = []
    for k, m in leaf:
        mine = [i for i in range(len(m)) if m[i] and i in out_idx]
        for i in mine:
            cols.append((k, tuple(ev["color"][i])))
    cols = [(k, c) for k, c in cols if c != (0, 0)]
    singlets = []
    for r in (2, 3):
        for combo in it.combinations(cols, r):
            if {c for _, (c, _) in combo} == {a for _, (_, a) in combo}:
                singlets.append(tuple(k for k, _ in combo))
    if invert:
        mem = set(it.chain.from_iterable(singlets))
        return [(k,) for k, _ in cols if k not in mem]
    return singlets


def clusters(ev, names, radius):
    """(flat [(key, mask over final)], ambiguous)"""
    tree = hierarchy(ev, names)
    tree, amb = partition(ev, tree)
    leaf = leaf_list(tree)
    open_keys = {k for (k,) in color_singlets(ev, leaf, True)}
    out_idx = {i for i, s in enumerate(ev["status"]) if abs(s) == 23}
    state = {"amb": amb}

    def prune(k, m):
        if k not in open_keys:
            return m
        i = [j for j in range(len(m)) if m[j] and j in out_idx][0]
        p = np.asarray(ev["pmu"], float)[i: i + 1]
        m2, a = centroid_prune(ev["pmu"], radius, m, (float(_eta(p)[0]), float(np.arctan2(p[0, 1], p[0, 0]))))
        state["amb"] = state["amb"] or a
        return m2.tolist()

    tree = map_leaves(tree, prune)
    flat = []

    def walk(t):
        for k, v in t:
            if k == "latent":
                continue
            if is_group(v):
                flat.append((k, agg([q for q in v if q[0] != "latent"])))
                walk(v)
            else:
                flat.append((k, v))

    # latent masks are dropped at every level before aggregation
    def drop(t):
        return [(k, drop(v) if is_group(v) else v) for k, v in t if k != "latent"]

    walk(drop(tree))
    fin = ev["final"]
    return [(k, [b for b, f in zip(m, fin) if f]) for k, m in flat], state["amb"]


def any_overlap(tree):
    ms = [agg(v) for _, v in tree]
    return any(any(a and b for a, b in zip(x, y)) for x, y in it.combinations(ms, 2))


# --------------------------------------------------------------- assignment
def assign_cost(focus, cand):
    d = delta_r(focus, cand, pseudo=False).val
    p1 = np.hypot(*np.asarray(focus, float).reshape(-1, 4)[:, :2].T)
    p2 = np.hypot(*np.asarray(cand, float).reshape(-1, 4)[:, :2].T)
    vp = np.var(p2)
    out = np.zeros_like(d)
    for i in range(len(d)):
        vd = np.var(d[i])
        for j in range(d.shape[1]):
            a = 0.0 if vd == 0 else math.expm1(-0.5 * d[i, j] ** 2 / vd)
            b = 0.0 if vp == 0 else math.expm1(-0.5 * (p1[i] - p2[j]) ** 2 / vp)
            out[i, j] = -(a + b)
    return out


def best_assignment(cost):
    """Minimum total cost over injective assignments (small sizes)."""
    n, m = cost.shape
    best = math.inf
    for perm in it.permutations(range(m), n):
        c = sum(cost[i, j] for i, j in enumerate(perm))
        best = min(best, c)
    return best


def gen_kt(pmu, radius, p, pt_cut=0.0):
    """Generalised-kt clustering, E-scheme, O(n^3).  Returns (list of
    (four-momentum, frozenset of constituents)) sorted by descending pt, and
    whether any decision was numerically ambiguous."""
    jets = [(np.asarray(v, float), frozenset([i])) for i, v in enumerate(pmu)]
    done, amb = [], False

    def q(v):
        return max(math.hypot(v[0], v[1]), 1e-300)

    def rap(v):
        return 0.5 * math.log((v[3] + v[2]) / (v[3] - v[2]))

    while jets:
        k = [q(v) ** (2 * p) for v, _ in jets]
        beam = min((k[i], i) for i in range(len(jets)))
        pairs = []
        for i in range(len(jets)):
            for j in range(i + 1, len(jets)):
                a, b = jets[i][0], jets[j][0]
                dphi = math.atan2(a[1] * b[0] - a[0] * b[1], a[0] * b[0] + a[1] * b[1])
                dr2 = (rap(a) - rap(b)) ** 2 + dphi ** 2
                pairs.append((min(k[i], k[j]) * dr2 / radius ** 2, (i, j)))
        pairs.sort()
        # two beam recombinations in either order give the same jets
        if pairs and pairs[0][0] < beam[0]:
            who = pairs[0][1]
            rival = min(beam[0], pairs[1][0] if len(pairs) > 1 else math.inf)
            amb = amb or rival - pairs[0][0] <= 1e-9 * abs(rival)
        else:
            who = (beam[1], None)
            amb = amb or bool(pairs and pairs[0][0] - beam[0] <= 1e-9 * beam[0])
        i, j = who
        if j is None:
            done.append(jets.pop(i))
        else:
            b = jets.pop(j)
            a = jets.pop(i)
            jets.append((a[0] + b[0], a[1] | b[1]))
    keep = []
    for v, s in done:
        if abs(q(v) - pt_cut) < 1e-7:
            amb = True
        if q(v) >= pt_cut:
            keep.append((v, s))
    keep.sort(key=lambda t: -q(t[0]))
    pts = [q(v) for v, _ in keep]
    if any(abs(a - b) < 1e-9 * a for a, b in zip(pts, pts[1:])):
        amb = True
    return keep, amb
