"""C09: particle sets and events whose rows carry a tag in every column."""
import re

import numpy as np

from . import gen, model as M
from .machines import (Copies, Step, Pred, COLS, COL_KIND, tree_value, build, select, length, squash, want, leaf_value)
from .ops import Exc, SKIP, brief, same, canon, draw_key, live_key, key_rows, mask as mask_c

HEAD = {"pdg": ["name"], "pmu": ["px", "py", "pz", "energy"], "color": ["color", "anticolor"], "helicity": ["helicity"],
        "status": ["status"], "final": ["final"]}


def agreed(v):
    exp = want(v)
    return Pred(lambda got: None if same(squash(got), squash(exp), 0, 0) else f"got {brief(got)}, expected {brief(exp)}", brief(exp, 60))


def known_codes():
    t = M.pdg_table()
    return [c for c in t if isinstance(t[c]["name"], str) and t[c]["name"] and " " not in t[c]["name"] and t[c]["name"] != "nan"]


def tagged(rng, t, n, missing):
    """A record in which every row of every column is unlike the others."""
    v = tree_value(rng, t, n, missing=missing)
    base = rng.randrange(100, 20000)
    codes = known_codes()
    p = v["p"] if t == "graph" else v
    for c in COLS:
        leaf = p["c"][c]
        if not leaf["v"]:
            continue
        if c == "pdg":
            leaf["v"] = rng.sample(codes, n) if n <= len(codes) else [rng.choice(codes) for _ in range(n)]
        elif c in ("status", "helicity"):
            leaf["v"] = [base + i for i in range(n)]
        elif c == "color":
            leaf["v"] = [[base + i, base + i + 500] for i in range(n)]
    if t == "graph" and v["a"]["v"]:
        v["a"]["v"] = [[-base - i, base - 3 * i] for i in range(n)]
        if v["a"]["w"]:
            v["a"]["w"] = [float(base + i) for i in range(n)]
    return v


def columns(v):
    """The present columns of a model record as [(headers, cells per row)]."""
    out = []
    p = v["p"] if v["t"] == "graph" else v
    nm = M.pdg_table()
    for c in COLS:
        rows = p["c"][c]["v"]
        if not len(rows):
            continue
        if c == "pdg":
            cells = [[nm[x]["name"]] if x in nm else None for x in rows]
        elif c == "pmu":
            cells = [["%.2E" % y for y in x] for x in rows]
        elif c == "color":
            cells = [[str(y) for y in x] for x in rows]
        else:
            cells = [[str(bool(x) if c == "final" else x)] for x in rows]
        out.append((HEAD[c], cells))
    if v["t"] == "graph" and len(v["a"]["v"]):
        out.append((["src", "dst"], [[str(y) for y in x] for x in v["a"]["v"]]))
    return out


def table_check(v, html):
    n = length(v)
    t = M.pdg_table()
    if any(x not in t for x in (v["p"] if v["t"] == "graph" else v)["c"]["pdg"]["v"]):
        return Exc("KeyError")  # a code without a name
    cols = columns(v)
    heads = [h for hs, _ in cols for h in hs]

    def f(got):
        if not isinstance(got, str):
            return f"expected text, got {brief(got)}"
        foot = f"{n} particles \u00D7 {len(heads)} attributes"
        if html:
            if not got.rstrip().endswith(foot):
                return f"footer {got[-60:]!r}, expected {foot!r}"
            have_heads = [re.sub("<[^>]*>", "", x).strip() for x in re.findall(r"<th[^>]*>(.*?)</th>", got)]
            body = [[re.sub("<[^>]*>", "", x).strip() for x in re.findall(r"<td[^>]*>(.*?)</td>", r)]
                    for r in re.findall(r"<tr>(.*?)</tr>", got, re.S)]
            body = [r for r in body if r]
        else:
            lines = got.split("\n")
            if lines[-1] != f"[{foot}]":
                return f"footer {lines[-1]!r}, expected {foot!r}"
            have_heads = lines[0].split()
            body = [x.split() for x in lines[1:-2]]
        if not n or not heads:
            return None
        if have_heads != heads:
            return f"headings {have_heads}, expected {heads}"
        rows = list(range(n)) if n <= 60 else list(range(5)) + [None] + list(range(n - 5, n))
        if len(body) != len(rows):
            return f"{len(body)} table rows, expected {len(rows)} for {n} particles"
        for have, i in zip(body, rows):
            if i is None:
                if set(have) != {"..."}:
                    return f"elided row reads {have}"
                continue
            if any(c[i] is None for _, c in cols):
                continue
            exp = [x for _, c in cols for x in c[i]]
            if html:
                exp = [x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&#x27;") for x in exp]
            if have != exp:
                return f"row {i} reads {have}, expected {exp}"
        return None
    return Pred(f, "printed table")


class Rows(Copies):
    def setup(self, rng):
        self.n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 12, 12, 60, 61, 70] + [rng.choice(gen.LONG)] * (rng.random() < 0.2))
        self.slots = []
        miss = rng.choice([0.0, 0.2, 0.6])
        for _ in range(2):
            v = tagged(rng, rng.choice(["pset", "graph", "graph"]), self.n, miss)
            self.slots.append([build(self.gcl, v), v])

    def _put(self, real, v):
        if len(self.slots) >= 5:
            self.slots.pop(0)
        self.slots.append([real, v])

    def do_badkey(self, rng, a):
        real, v = rng.choice(self.slots)
        n = length(v)
        if not n:
            return None
        k = rng.choice([self.gcl.MaskArray([True] * (n + 1)), np.ones(n + 2, bool), [n], [-n - 1, 0], n])
        return Step(lambda: real[k], Exc("IndexError"), None, False, f"key {brief(k, 60)}")

    def do_scalar(self, rng, a):
        real, v = rng.choice(self.slots)
        n = length(v)
        if not n:
            return None
        i = rng.randint(-n, n - 1)
        nv = select(v, [i % n], n)
        i = rng.choice([i, np.int64(i)])
        return Step(lambda: real[i], agreed(nv), None, False, f"{v['t']}[{i}]")

    def do_size(self, rng, a):
        real, v = rng.choice(self.slots)
        n = length(v)
        if rng.random() < 0.5:
            return Step(lambda: len(real), n, None, False, "len")
        return Step(lambda: bool(real), n > 0, None, False, "bool")

    def do_text(self, rng, a):
        real, v = rng.choice(self.slots)
        if rng.random() < 0.35:
            return Step(lambda: real._repr_html_(), table_check(v, True), None, False, "html table")
        if rng.random() < 0.25:
            return Step(lambda: self._reprs(real), True, None, False, "repr")
        return Step(lambda: str(real), table_check(v, False), None, False, "table")

    def _reprs(self, real):
        """The developer's text of a record holds those of its parts."""
        whole = "".join(repr(real).split())
        parts = [real.particles, real.adj] if hasattr(real, "adj") else [getattr(real, c) for c in COLS]
        lost = [type(x).__name__ for x in parts if len(x) and "".join(repr(x).split()) not in whole]
        return f"{lost} are not told" if lost else True

    def do_ser(self, rng, a):
        real, v = rng.choice(self.slots)
        p = v["p"] if v["t"] == "graph" else v

        def plain(t, rows):
            return tuple(tuple(r) for r in rows) if t in ("pmu", "color") else tuple(rows)
        exp = {c: plain(COL_KIND[c], p["c"][c]["v"]) for c in COLS}
        if v["t"] == "graph":
            exp["adj"] = tuple(tuple(e) for e in v["a"]["v"])
        exp = canon(self.gcl, exp)

        def f(got):
            if not (isinstance(got, tuple) and got[0] == "dict" and set(got[1]) == set(exp[1])):
                return f"got {brief(got)}, expected {brief(exp)}"
            return None if same(("dict", {k: got[1][k] for k in exp[1]}), exp, 0, 0) else f"got {brief(got)}, expected {brief(exp)}"
        return Step(lambda: real.serialize(), Pred(f, "serialised"), None, False, "serialize")

    def do_cols(self, rng, a):
        real, v = rng.choice(self.slots)
        c = rng.choice(COLS + ("edges", "weights"))
        if c in ("edges", "weights"):
            if v["t"] != "graph":
                return None
            if c == "weights":
                exp = [float(x) for x in v["a"]["w"]]
                return Step(lambda: [float(x) for x in real.adj.weights], ("list", exp), None, False, c)
            exp = canon(self.gcl, [tuple(e) for e in v["a"]["v"]])
            return Step(lambda: [tuple(e) for e in real.edges.tolist()], exp, None, False, c)
        p = v["p"] if v["t"] == "graph" else v
        return Step(lambda: getattr(real, c), agreed(p["c"][c]), None, False, c)

    def do_wrap(self, rng, a):
        """The same columns under another composite, or columns joined by hand."""
        real, v = rng.choice(self.slots)
        key = self._key(rng, length(v))
        k = live_key(self.gcl, key)
        rows = key_rows(key, length(v))
        nv = select(v, rows, length(v))
        gcl = self.gcl
        if v["t"] == "graph":
            def run():
                return gcl.Graphicle(particles=real.particles[k], adj=real.adj[k] if len(real.adj) else gcl.AdjacencyList())
            if not length(v["p"]):
                return None
        else:
            def run():
                return gcl.ParticleSet(**{c: getattr(real, c)[k] for c in COLS if len(getattr(real, c))})
        return Step(run, agreed(nv), lambda r: self._put(r, nv), False, f"wrapped {v['t']}[{key}]")

    def do_arrays(self, rng, a):
        """Through plain arrays and back."""
        real, v = rng.choice(self.slots)
        p = v["p"] if v["t"] == "graph" else v
        have = [c for c in COLS if len(p["c"][c]["v"])]
        gcl = self.gcl
        cls = gcl.Graphicle if v["t"] == "graph" else gcl.ParticleSet

        def run():
            kw = {c: np.array(getattr(real, c).data) for c in have}
            if v["t"] == "graph" and len(real.adj):
                kw["edges"] = np.array(real.adj.edges)
                if len(real.adj.weights):
                    kw["weights"] = np.array(real.adj.weights)
            return cls.from_numpy(**kw)
        return Step(run, agreed(v), lambda r: self._put(r, __import__("copy").deepcopy(v)), False, "through arrays")

    def do_read(self, rng, a):
        """Derived quantities stay with their rows."""
        real, v = rng.choice(self.slots)
        p = v["p"] if v["t"] == "graph" else v
        c = rng.choice(["pt", "name", "final", "status", "hard"])
        pmu, pdg = p["c"]["pmu"]["v"], p["c"]["pdg"]["v"]
        if c == "pt" and pmu:
            return Step(lambda: real.pmu.pt, M.pt(np.array(pmu)), None, False, c)
        if c == "name" and pdg:
            t = M.pdg_table()
            return Step(lambda: [str(s) for s in real.pdg.name], ("list", [t[x]["name"] for x in pdg]) if all(x in t for x in pdg) else SKIP,
                        None, False, c)
        if c == "final" and p["c"]["final"]["v"] and pmu:
            f = p["c"]["final"]["v"]
            return Step(lambda: real[real.final].pmu.pt, M.pt(np.array([r for r, b in zip(pmu, f) if b]).reshape(-1, 4)) if any(f) else SKIP,
                        None, False, "pt of the final state")
        if c == "status" and p["c"]["status"]["v"]:
            s = p["c"]["status"]["v"]
            lo, hi = sorted(rng.sample(range(min(s) - 2, max(s) + 3), 2))
            return Step(lambda: real.status.in_range(lo, hi), mask_c([lo <= abs(x) <= hi for x in s]), None, False, f"status {lo}..{hi}")
        return None

    def audits(self):
        out = []
        for real, v in self.slots:
            out.append(Step(lambda real=real: str(real), table_check(v, False), None, False, "table"))
            out.append(Step(lambda real=real: real.copy(), agreed(v), None, False, "copy"))
        return out


ROWS_F = ["select", "slice", "scalar", "copy", "write", "attr", "badkey", "size", "text", "ser", "cols", "wrap", "arrays", "read"]
ROWS_W = [9, 3, 2, 2, 2, 3, 1, 2, 4, 3, 4, 3, 2, 3]
