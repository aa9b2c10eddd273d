"""C08: mask groups against an ordered-dictionary model with shared members."""
import collections
import copy as pycopy
import warnings

import numpy as np

from . import gen
from .core import HarnessError
from .machines import Machine, Step, Pred, squash
from .ops import Exc, SKIP, call, canon, brief, same, mask as mask_c, draw_key, live_key, key_rows

NAMES = ["b", "q", "W+", "t:0", "latent", "x y", "H0", "nu", "tau-", "g", "Z0", "mu+", "", "τ", "a.b", "data", "0", "_agg_op"]


class Node:
    """A model mask (v) or group (k, agg).  Shared members are shared nodes."""
    __slots__ = ("v", "k", "agg")

    def __init__(self, v=None, k=None, agg="and"):
        self.v, self.k, self.agg = v, k, agg

    @property
    def group(self):
        return self.k is not None


def want(n):
    if not n.group:
        return mask_c(n.v)
    return ("group", n.agg, [(k, want(x)) for k, x in n.k.items()])


def content(n):
    """Serialised form."""
    return {k: content(x) for k, x in n.k.items()} if n.group else tuple(n.v)


def clone(n):
    return Node(list(n.v)) if not n.group else Node(None, collections.OrderedDict((k, clone(x)) for k, x in n.k.items()), n.agg)


def rows_of(n, rows):
    if not n.group:
        return Node([n.v[i] for i in rows])
    return Node(None, collections.OrderedDict((k, rows_of(x, rows)) for k, x in n.k.items()), n.agg)


class Undefined(Exception):
    """The aggregation is not defined for this content."""


def agg(n, how=None):
    if not n.group:
        return list(n.v)
    how = how or n.agg
    if how == "none":
        raise ValueError
    if not n.k:
        raise Undefined
    f = any if how == "or" else all
    return [bool(f(c)) for c in zip(*[agg(x) for x in n.k.values()])]


def reaches(a, b):
    return a is b or (a.group and any(reaches(x, b) for x in a.k.values()))


def subnodes(n, real):
    """(real, node) of every group at or below, outermost first."""
    out = [(real, n)]
    if n.group:
        for k, x in n.k.items():
            out += subnodes(x, real[k])
    return out


def equal(a, b, order):
    if a.group != b.group:
        return False
    if not a.group:
        return a.v == b.v
    if (list(a.k) != list(b.k)) if order else (set(a.k) != set(b.k)):
        return False
    return all(equal(a.k[k], b.k[k], order) for k in a.k)


def drop(n, key):
    if not n.group:
        return Node(list(n.v))
    return Node(None, collections.OrderedDict((k, drop(x, key)) for k, x in n.k.items() if k != key), n.agg)


def drop_in_place(n, key):
    n.k.pop(key, None)
    for x in n.k.values():
        if x.group:
            drop_in_place(x, key)


def rise(n):
    out = []
    for k, x in n.k.items():
        if k == "latent":
            continue
        out.append((k, Node(agg(x))))
        if x.group:
            out += rise(x)
    return out


def leaves(n, top=True):
    out = []
    for k, x in n.k.items():
        if not x.group:
            if top or k != "latent":
                out.append((k, x))
        elif top or k != "latent":
            out += leaves(x, False)
    return out


def outline(n, depth=0):
    out = []
    for k, x in n.k.items():
        out.append((depth, k))
        if x.group:
            out += outline(x, depth + 1)
    return out


def read_outline(text):
    """(depth, name) of every line of a printed tree after its heading."""
    out = []
    for ln in text.splitlines()[1:]:
        s = ln.rstrip()
        if not s.strip():
            continue
        i = 0
        while i < len(s) and s[i] in "│├└─ `|+-" and not (i and s[i - 1] == " " and s[i] not in "│├└─ "):
            i += 1
        out.append((i // 4 - 1, s[i:]))
    return out


def agreed(exp):
    return Pred(lambda got: None if same(squash(got), squash(exp), 0, 0) else f"got {brief(got)}, expected {brief(exp)}", brief(exp, 80))


class Groups(Machine):
    def setup(self, rng):
        self.n = rng.choice([1, 2, 3, 4, 5, 8, 12]) if rng.random() < 0.985 else rng.choice(gen.LONG)
        self.faulty = bool(self.init.get("faulty"))
        self.slots = []
        for _ in range(2):
            n = self._new(rng, 2)
            self.slots.append([self.build(n, rng), n])

    # -- making ------------------------------------------------------------
    def _bits(self, rng):
        p = rng.choice([0.1, 0.5, 0.5, 0.9])
        return [rng.random() < p for _ in range(self.n)]

    def _new(self, rng, depth):
        k = collections.OrderedDict()
        for _ in range(rng.randint(1 if depth == 2 else 0 if rng.random() < 0.1 else 1, 4)):
            name = rng.choice(NAMES)
            k[name] = self._new(rng, depth - 1) if depth and rng.random() < 0.35 else Node(self._bits(rng))
        return Node(None, k, rng.choice(["and", "or", "or", "none"] if rng.random() < 0.5 else ["and", "or"]))

    def build(self, n, rng=None):
        if not n.group:
            return self.gcl.MaskArray(list(n.v))
        d = {}
        for k, x in n.k.items():
            form = rng.randrange(3) if rng and not x.group else 0
            d[k] = self.build(x, rng) if form == 0 else np.array(x.v, bool) if form == 1 else list(x.v)
        how = n.agg
        if rng and rng.random() < 0.2:
            how = self.gcl.data.MaskAggOp(n.agg) if hasattr(self.gcl.data, "MaskAggOp") else n.agg
        return self.gcl.MaskGroup(d, how)

    def mismatch(self):
        for i, (r, n) in enumerate(self.slots):
            got, exp = squash(canon(self.gcl, r)), squash(want(n))
            if not same(got, exp, 0, 0):
                return f"group {i} holds {brief(got)}, expected {brief(exp)}"
        return None

    def _put(self, real, node):
        if len(self.slots) >= 4:
            self.slots.pop(0)
        self.slots.append([real, node])

    # -- choosing ----------------------------------------------------------
    def _group(self, rng, any_depth=True):
        real, n = rng.choice(self.slots)
        if any_depth:
            c = [(r, x) for r, x in subnodes(n, real) if x.group]
            return rng.choice(c)
        return real, n

    def _key(self, rng, n, present=None):
        have = list(n.k)
        if present is True:
            return rng.choice(have) if have else None
        if present is False:
            c = [k for k in NAMES if k not in n.k]
            return rng.choice(c) if c else None
        return rng.choice(have) if have and rng.random() < 0.5 else rng.choice(NAMES)

    def _value(self, rng, target):
        """(real value, node) to put into target."""
        u = rng.random()
        if u < 0.45:
            bits = self._bits(rng)
            v = rng.choice([self.gcl.MaskArray(bits), np.array(bits, bool), list(bits), tuple(bits), [int(b) for b in bits]])
            return v, Node(bits)
        if u < 0.6:
            n = self._new(rng, 0)
            return self.build(n, rng), n
        c = [(r, x) for s in self.slots for r, x in subnodes(s[1], s[0])
             if not reaches(x, target) and self._depth(x) < 3]
        if c:
            return rng.choice(c)
        bits = self._bits(rng)
        return self.gcl.MaskArray(bits), Node(bits)

    def _depth(self, n):
        return 1 + max([self._depth(x) for x in n.k.values()] or [0]) if n.group else 0

    def _total(self, n):
        return 1 + sum(self._total(x) for x in n.k.values()) if n.group else 1

    # -- writing -----------------------------------------------------------
    def do_set(self, rng, a):
        g, n = self._group(rng)
        key = self._key(rng, n)
        v, x = self._value(rng, n)
        if self._total(n) > 25:
            return self.do_del(rng, a)
        how = rng.choice(["[]", "[]", "[]", "update", "setdefault", "kw"])
        if how == "setdefault" and not (isinstance(v, self.gcl.MaskArray) or isinstance(v, self.gcl.MaskGroup)):
            how = "[]"
        if how == "kw" and not key.isidentifier():
            how = "update"
        there = n.k.get(key)

        def commit(_):
            if not (how == "setdefault" and there is not None):
                n.k[key] = x

        def run():
            if how == "[]":
                g[key] = v
            elif how == "update":
                g.update({key: v})
            elif how == "kw":
                g.update(**{key: v})
            else:
                return g.setdefault(key, v)
        exp = None
        if how == "setdefault":
            exp = agreed(want(there if there is not None else x))
        return Step(run, exp, commit, True, f"{how} {key!r}")

    def do_setbad(self, rng, a):
        g, n = self._group(rng)
        key = rng.choice([3, 2.5, None, ("b",), b"b", True])
        v = self.gcl.MaskArray(self._bits(rng))

        def run():
            g[key] = v
        return Step(run, Exc("KeyError"), None, False, f"set {key!r}")

    def do_del(self, rng, a):
        g, n = self._group(rng)
        key = self._key(rng, n)
        had = n.k.get(key)
        how = rng.choice(["del", "pop", "pop", "popd"])

        def run():
            if how == "del":
                del g[key]
            elif how == "pop":
                return g.pop(key)
            else:
                return g.pop(key, None)

        def commit(_):
            n.k.pop(key, None)
        if had is None:
            if how == "popd":
                return Step(run, Pred(lambda got: None if got is None else f"got {brief(got)}, expected the default", "default"), None, False, f"pop missing {key!r}")
            return Step(run, Exc("KeyError"), None, False, f"{how} missing {key!r}")
        exp = None if how == "del" else agreed(want(had))
        return Step(run, exp, commit, True, f"{how} {key!r}")

    def do_popitem(self, rng, a):
        g, n = self._group(rng)
        if not n.k:
            return Step(lambda: g.popitem(), Exc("KeyError"), None, False, "popitem of an empty group")
        ends = {k: want(n.k[k]) for k in (next(iter(n.k)), next(reversed(n.k)))}

        def ok(got):
            if isinstance(got, tuple) and got[0] == "tuple" and got[1][0] in ends and same(squash(got[1][1]), squash(ends[got[1][0]]), 0, 0):
                return None
            return f"got {brief(got)}, expected one of {brief(ends)}"

        def commit(r):
            key = r[0] if isinstance(r, tuple) else next((k for k in ends if k not in list(g)), None)
            n.k.pop(key, None)
        return Step(lambda: g.popitem(), Pred(ok, "popitem"), commit, True, "popitem")

    def do_bulk(self, rng, a):
        """Several members at once (not one step, so only without failures)."""
        g, n = self._group(rng)
        if self.faulty or self._total(n) > 20:
            return None
        how = rng.choice(["clear", "update", "pairs", "group", "drop"])
        if how == "clear":
            if rng.random() < 0.6:
                return None
            return Step(lambda: g.clear(), None, lambda _: n.k.clear(), True, "clear")
        if how == "drop":
            key = rng.choice(["latent", "latent", "b"])
            return Step(lambda: (g.recursive_drop(inplace=True) if key == "latent" else g.recursive_drop(key, inplace=True)) is None, None, lambda _: drop_in_place(n, key), True, f"drop {key}")
        new = collections.OrderedDict()
        for _ in range(rng.randint(1, 3)):
            new[rng.choice(NAMES)] = Node(self._bits(rng))
        if how == "group":
            src = self.build(Node(None, new, "or"))
        elif how == "pairs":
            src = [(k, self.gcl.MaskArray(x.v)) for k, x in new.items()]
        else:
            src = {k: (list(x.v) if rng.random() < 0.5 else self.gcl.MaskArray(x.v)) for k, x in new.items()}
        return Step(lambda: g.update(src), None, lambda _: n.k.update(new), True, f"update {list(new)}")

    def do_leaf(self, rng, a):
        """Change a mask held by one group, or by several."""
        real, n = rng.choice(self.slots)
        c = [(r, x) for r, x in subnodes(n, real) if not x.group]
        if not c:
            return None
        m, x = rng.choice(c)
        new = self._bits(rng)
        how = rng.choice(["[]", "[]", "mask", "data", "slice"])
        i = rng.randrange(self.n)
        cut = rng.randint(0, self.n)
        key = self._bits(rng)

        def run():
            if how == "[]":
                m[i] = new[i]
            elif how == "mask":
                m[self.gcl.MaskArray(key)] = new[0]
            elif how == "slice":
                m[:cut] = new[:cut]
            else:
                m.data = new
        final = list(x.v)
        if how == "[]":
            final[i] = new[i]
        elif how == "mask":
            final = [new[0] if k else b for k, b in zip(key, final)]
        elif how == "slice":
            final = new[:cut] + final[cut:]
        else:
            final = new

        def commit(_):
            x.v = final
        return Step(run, None, commit, True, f"member {how}")

    def do_agg(self, rng, a):
        g, n = self._group(rng)
        how = rng.choice(["and", "or", "or", "none"])

        def run():
            g.agg_op = how

        def commit(_):
            n.agg = how
        return Step(run, None, commit, True, f"agg_op={how}")

    # -- new groups ----------------------------------------------------------
    def do_copy(self, rng, a):
        g, n = self._group(rng)
        how = rng.choice(["copy", "copy", "deepcopy", "rows", "drop", "rebuild"])
        ids = [id(x) for _, x in self._pairs(n)]
        if len(set(ids)) < len(ids):
            # whether the copies of a member held twice are one (as deepcopy has it) or two is not specified
            put = lambda r, new: None
        else:
            put = self._put
        if how == "rows":
            key = draw_key(rng, self.n)
            while key[0] == "slice":
                key = draw_key(rng, self.n)
            rows = key_rows(key, self.n)
            new = rows_of(n, rows)
            k = live_key(self.gcl, key)
            full = len(rows) == self.n
            return Step(lambda: g[k], agreed(want(new)), (lambda r: put(r, new)) if full else None, False, f"rows {key}")
        if how == "drop":
            key = self._key(rng, n) if rng.random() < 0.5 else "latent"
            new = drop(n, key)
            return Step(lambda: g.recursive_drop() if key == "latent" else g.recursive_drop(key), agreed(want(new)), lambda r: put(r, new), False, f"without {key!r}")
        new = clone(n)
        if how == "rebuild":
            # the same members under another group object
            new = Node(None, collections.OrderedDict(n.k), rng.choice(["and", "or"]))
            return Step(lambda: self.gcl.MaskGroup(g, new.agg), agreed(want(new)), None, False, "regrouped")
        return Step((lambda: g.copy()) if how == "copy" else (lambda: pycopy.deepcopy(g)), agreed(want(new)),
                    lambda r: put(r, new), False, how)

    def do_structured(self, rng, a):
        names = rng.sample([k for k in NAMES if k], rng.randint(1, 4))
        bits = [self._bits(rng) for _ in names]
        rec = np.zeros(self.n, dtype=[(k, bool) for k in names])
        for k, b in zip(names, bits):
            rec[k] = b
        new = Node(None, collections.OrderedDict((k, Node(b)) for k, b in zip(names, bits)), "and")
        return Step(lambda: self.gcl.MaskGroup.from_numpy_structured(rec), agreed(want(new)), lambda r: self._put(r, new), False,
                    f"from structured {names}")

    # -- reading -------------------------------------------------------------
    def _agg(self, n, fn):
        """Expectation computed by fn(aggregated bits)."""
        try:
            return fn(agg(n))
        except ValueError:
            return Exc("ValueError")
        except Undefined:
            return SKIP

    def do_data(self, rng, a):
        g, n = self._group(rng)
        how = rng.choice(["data", "data", "array", "or", "and", "not", "sum", "bool"])
        if how in ("or", "and"):
            try:
                exp = agreed(mask_c(agg(n, how)))
            except ValueError:
                exp = Exc("ValueError")
            except Undefined:
                exp = SKIP
            return Step((lambda: g.bitwise_or()) if how == "or" else (lambda: g.bitwise_and()), exp, None, False, "bitwise_" + how)
        if how == "not":
            return Step(lambda: ~g, self._agg(n, lambda b: agreed(mask_c([not v for v in b]))), None, False, "~")
        if how == "sum":
            return Step(lambda: int(np.sum(g.data)), self._agg(n, sum), None, False, "sum")
        if how == "bool":
            exp = False if not n.k else self._agg(n, lambda b: len(b) > 0)
            return Step(lambda: bool(g), exp, None, False, "bool")
        f = (lambda: g.data.tolist()) if how == "data" else (lambda: np.asarray(g).tolist())
        return Step(f, self._agg(n, lambda b: ("list", b)), None, False, how)

    def do_binary(self, rng, a):
        g, n = self._group(rng)
        o = rng.choice(["&", "|", "==", "!="])
        if rng.random() < 0.4:
            h, m = self._group(rng)
        else:
            bits = self._bits(rng)
            h, m = (self.gcl.MaskArray(bits) if rng.random() < 0.6 else np.array(bits, bool)), Node(bits)
        flip = rng.random() < 0.4 and not isinstance(h, np.ndarray)
        if rng.random() < 0.08:
            bad = rng.choice([[True] * self.n, "text", 3])
            return Step(lambda: (g & bad) if o in "&|" else (g == bad), Exc("ValueError"), None, False, f"{o} with {bad!r}")
        fn = {"&": lambda p, q: p and q, "|": lambda p, q: p or q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q}[o]
        try:
            exp = agreed(mask_c([fn(p, q) for p, q in zip(agg(n), agg(m))]))
        except ValueError:
            exp = Exc("ValueError")
            if any(self._hollow(x) for x in (n, m)):
                exp = SKIP
        except Undefined:
            exp = SKIP

        def run():
            x, y = (h, g) if flip else (g, h)
            return x & y if o == "&" else x | y if o == "|" else x == y if o == "==" else x != y
        return Step(run, exp, None, False, f"{o}{' flipped' if flip else ''}")

    def _hollow(self, n):
        return n.group and (not n.k or any(self._hollow(x) for x in n.k.values()))

    def do_map(self, rng, a):
        g, n = self._group(rng)
        how = rng.choice(["keys", "iter", "len", "in", "get", "[]", "[]", "items", "values", "list", "aggname", "missing"])
        key = self._key(rng, n)
        if how in ("keys", "iter"):
            return Step((lambda: list(g.keys())) if how == "keys" else (lambda: list(g)), ("list", list(n.k)), None, False, how)
        if how == "len":
            return Step(lambda: len(g), len(n.k), None, False, how)
        if how == "in":
            return Step(lambda: key in g, key in n.k, None, False, f"{key!r} in")
        if how == "get":
            return Step(lambda: g.get(key), agreed(want(n.k[key])) if key in n.k else
                        Pred(lambda got: None if got is None else f"got {brief(got)}", "None"), None, False, f"get {key!r}")
        if how == "[]":
            return Step(lambda: g[key], agreed(want(n.k[key])) if key in n.k else Exc("KeyError"), None, False, f"[{key!r}]")
        if how == "missing":
            ks = [key, "not there"]
            return Step(lambda: g[ks], Exc("KeyError"), None, False, f"[{ks}]")
        if how == "items":
            return Step(lambda: [(k, v) for k, v in g.items()],
                        agreed(("list", [("tuple", [k, want(x)]) for k, x in n.k.items()])), None, False, how)
        if how == "values":
            return Step(lambda: list(g.values()), agreed(("list", [want(x) for x in n.k.values()])), None, False, how)
        if how == "aggname":
            return Step(lambda: str(g.agg_op.value), n.agg, None, False, "agg_op")
        ks = list(n.k)
        rng.shuffle(ks)
        ks = ks[:rng.randint(0, len(ks))]
        new = Node(None, collections.OrderedDict((k, n.k[k]) for k in ks), n.agg)
        return Step(lambda: g[ks], agreed(want(new)), None, False, f"[{ks}]")

    def do_rows(self, rng, a):
        g, n = self._group(rng)
        key = draw_key(rng, self.n)
        k = live_key(self.gcl, key)
        return Step(lambda: g[k], agreed(want(rows_of(n, key_rows(key, self.n)))), None, False, f"[{key}]")

    def do_flatten(self, rng, a):
        g, n = self._group(rng)
        how = rng.choice(["rise", "agg", "leaves", "default"])
        try:
            if how in ("rise", "default"):
                pairs, op = rise(n), n.agg
            elif how == "agg":
                pairs, op = [(k, Node(agg(x))) for k, x in n.k.items()], "or"
            else:
                pairs, op = leaves(n), n.agg
            if len({k for k, _ in pairs}) != len(pairs):
                exp = SKIP  # one name at several levels: which one wins is not specified
            else:
                exp = agreed(want(Node(None, collections.OrderedDict(pairs), op)))
        except ValueError:
            exp = Exc("ValueError") if not self._hollow(n) else SKIP
        except Undefined:
            exp = SKIP
        return Step((lambda: g.flatten()) if how == "default" else (lambda: g.flatten(how)), exp, None, False, f"flatten {how}")

    def do_equal(self, rng, a):
        g, n = self._group(rng)
        order = rng.random() < 0.5
        m = clone(n)
        u = rng.random()
        if u < 0.25:
            self._shuffle(rng, m)
        elif u < 0.7:
            c = [x for _, x in self._pairs(m) if not x.group]
            if c and rng.random() < 0.6:
                x = rng.choice(c)
                i = rng.randrange(self.n)
                x.v[i] = not x.v[i]
            else:
                c = [x for _, x in self._pairs(m) if x.group]
                x = rng.choice(c)
                if x.k and rng.random() < 0.5:
                    x.k.pop(rng.choice(list(x.k)))
                elif x.k and rng.random() < 0.6:
                    # a mask where a group was, or the reverse
                    k = rng.choice(list(x.k))
                    y = x.k[k]
                    x.k[k] = Node(None, collections.OrderedDict(b=Node(self._bits(rng))), "or") if not y.group else Node(self._bits(rng))
                else:
                    x.k["another"] = Node(self._bits(rng))
        elif u < 0.8:
            h, m = self._group(rng)
            return Step(lambda: g.equal_to(h, order), equal(n, m, order), None, False, "equal_to another")
        h = self.build(m)
        flip = rng.random() < 0.3
        return Step(lambda: call((h if flip else g).equal_to, {"f": flip, "k": sorted(n.k)}, g if flip else h, check_order=(order, False)), equal(n, m, order), None, False,
                    f"equal_to order={order}")

    def _pairs(self, n):
        out = [(None, n)]
        if n.group:
            for x in n.k.values():
                out += self._pairs(x)
        return out

    def _shuffle(self, rng, n):
        ks = list(n.k)
        rng.shuffle(ks)
        n.k = collections.OrderedDict((k, n.k[k]) for k in ks)
        for x in n.k.values():
            if x.group:
                self._shuffle(rng, x)

    def do_text(self, rng, a):
        g, n = self._group(rng)
        how = rng.choice(["ser", "ser", "str", "repr", "dict"])
        if how == "dict":
            if not hasattr(g, "to_dict"):
                return None
            try:
                exp = [("list", [bool(b) for b in agg(x)]) for x in n.k.values()]
            except (Undefined, ValueError):
                return None

            def plain():
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    d = g.to_dict()
                return {k: np.asarray(d[k]).tolist() for k in d}
            return Step(plain, ("dict", dict(zip(n.k, exp))), None, False, "to_dict")
        if how == "ser":
            return Step(lambda: g.serialize(), canon(self.gcl, content(n)), None, False, "serialize")
        if how == "repr":
            exp = f"MaskGroup(masks=[{', '.join(chr(34) + k + chr(34) for k in n.k)}], agg_op={n.agg.upper()})"
            return Step(lambda: repr(g), exp, None, False, "repr")
        exp = [(0, x[1]) if not x[1] else x for x in outline(n)]

        def ok(got):
            if not isinstance(got, str) or n.agg.upper() not in got.splitlines()[0]:
                return f"heading {brief(got, 80)}, expected aggregation {n.agg.upper()}"
            # an empty name leaves nothing to tell its depth by
            have = [(0, x[1]) if not x[1] else x for x in read_outline(got)]
            return None if have == exp else f"tree lists {brief(have)}, expected {brief(exp)}"
        return Step(lambda: str(g), Pred(ok, "printed tree"), None, False, "str")

    def audits(self):
        out = []
        for g, n in self.slots:
            out.append(Step(lambda g=g: g.data.tolist(), self._agg(n, lambda b: ("list", b)), None, False, "data"))
            out.append(Step(lambda g=g: g.serialize(), canon(self.gcl, content(n)), None, False, "serialize"))
            out.append(Step(lambda g=g: list(g), ("list", list(n.k)), None, False, "names"))
        return out


GROUP_F = ["set", "setbad", "del", "popitem", "bulk", "leaf", "agg", "copy", "structured", "data", "binary", "map", "rows",
           "flatten", "equal", "text"]
GROUP_W = [9, 1, 4, 1, 3, 6, 4, 4, 1, 8, 4, 6, 2, 5, 3, 3]
