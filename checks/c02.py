"""C02: equality and hashing of grids; collections refuse mixed grids."""
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is a pair of grid configurations (or a sequence of states on such grids) with the expected relation known from the parameters"


def _params(c):
    nlon = int(pick(c.rng, [8, 12, 16, 18, 24]))
    r = float(pick(c.rng, RADII)) * float(c.rng.uniform(.5, 2))
    w = float(pick(c.rng, [0., 1e-12, 1e-9, -3e-9, 1e-8, 1e-6, 7.292e-5, -7e-5, 1e-3, 1.])) * float(c.rng.uniform(.5, 2))
    nt = None if c.rng.random() < .5 else int(c.rng.integers(2, nlon // 2 + 1))
    return dict(resolution=360. / nlon, rsphere=r, omega=w, ntrunc=nt)


def _vary(c, p):
    """A second configuration and whether it must be equal."""
    q = dict(p)
    nlat = round(180. / p["resolution"]) + 1
    how = pick(c.rng, ["same", "same", "legfunc", "rounding", "resolution", "radius", "omega", "omega", "omega-sign", "omega-zero", "ntrunc", "ntrunc-explicit"])
    equal = False
    if how == "same":
        equal = True
    elif how == "legfunc":
        q["legfunc"] = "computed"; equal = True
    elif how == "rounding":
        q["rsphere"] *= 1 + 2e-16 * int(c.rng.integers(0, 5)); q["omega"] *= 1 + 2e-16 * int(c.rng.integers(0, 5)); equal = True
    elif how == "resolution":
        q["resolution"] = 360. / (2 * (nlat - 1) + int(pick(c.rng, [2, 4, 8])))
        if q["ntrunc"] is None:
            q["ntrunc"] = nlat - 1 # same truncation, only the shape differs
    elif how == "radius":
        q["rsphere"] *= 1 + float(pick(c.rng, [1e-3, -1e-3, .1, 1., -.5, 3e-4]))
    elif how == "omega":
        if p["omega"] == 0.:
            q["omega"] = float(pick(c.rng, [1e-12, 1e-9, 1e-5]))
        else:
            q["omega"] *= 1 + float(pick(c.rng, [1e-3, -1e-3, .1, 1., -.5, 3e-4, 10.]))
    elif how == "omega-sign":
        q["omega"] = -p["omega"]; equal = p["omega"] == 0.
    elif how == "omega-zero":
        q["omega"] = 0.; equal = p["omega"] == 0.
    elif how == "ntrunc":
        cur = nlat - 1 if p["ntrunc"] is None else p["ntrunc"]
        q["ntrunc"] = cur - 1 if cur > 2 else cur + 1
    elif how == "ntrunc-explicit":
        q["ntrunc"] = nlat - 1 if p["ntrunc"] is None else p["ntrunc"]; equal = True
    return how, q, equal


def pairs(c):
    p = _params(c)
    how, q, equal = _vary(c, p)
    c.note(p=p, q=q, how=how)
    a, b = bt.Grid(**p), bt.Grid(**q)
    c.event("pairs equal" if equal else "pairs different")
    for x, y in ((a, b), (b, a)):
        c.check(bool(x == y) is equal, f"grids that differ by '{how}' compare {'equal' if equal else 'unequal'}")
        c.check(bool(x != y) is (not equal), f"!= is the negation of == ({how})")
    c.check(a == a and b == b, "a grid equals itself")
    if a == b:
        c.check(hash(a) == hash(b), "equal grids have equal hashes")
    if equal:
        c.check({a: "x"}.get(b) == "x", "an equal grid finds the dictionary entry")
        c.check(len({a, b}) == 1, "a set holds equal grids once")
    else:
        c.check({a: "x"}.get(b) is None and len({a, b}) == 2, "different grids are different keys")
    c.check(hash(a) == hash(a) == hash(bt.Grid(**p)), "the hash is reproducible")


def other_objects(c):
    p = _params(c)
    g = bt.Grid(**p)
    s = bt.init.motionless(g)
    others = [None, 1, 1.5, "grid", (), [], {}, object(), g.shape, s, bt.StateList([s]), type(g), NotImplemented.__class__]
    o = others[c.index % len(others)]
    c.note(p=p, other=type(o).__name__)
    c.event("foreign objects")
    for f, want, what in ((lambda: g == o, False, "=="), (lambda: g != o, True, "!="), (lambda: o == g, False, "reversed =="), (lambda: g in [o], False, "in"), (lambda: {g: 1}.get(o if getattr(o, "__hash__", None) else 0, None) is None, True, "lookup")):
        ok, v = c.works(f, f"{what} between a grid and {type(o).__name__}")
        if ok:
            c.check(bool(v) is want, f"{what} between a grid and {type(o).__name__} is {want}")


def collections(c):
    p = _params(c)
    how, q, equal = _vary(c, p)
    a, a2, b = bt.Grid(**p), bt.Grid(**p), bt.Grid(**q)
    n = int(c.rng.integers(2, 7))
    pos = int(c.rng.integers(0, n))
    npos = int(c.rng.integers(1, n))
    how_many = "one" if c.rng.random() < .7 else "several"
    odd = {pos} if how_many == "one" else set(int(i) for i in c.rng.integers(0, n, size=npos))
    if len(odd) == n:
        odd.discard(0)
    c.note(p=p, how=how, n=n, odd=sorted(odd))
    st = [bt.init.motionless(b if i in odd else (a if i % 2 else a2), time=i) for i in range(n)]
    def build(): return bt.StateList(st)
    def gen(): return bt.StateList(s for s in st)
    k = int(c.rng.integers(0, n + 1))
    def add():
        x, y = st[:k], st[k:]
        return bt.StateList(x) + bt.StateList(y)
    def add_list():
        return bt.StateList(st[:k]) + st[k:]
    c.event("collections accepted" if equal else "collections refused")
    for name, f in (("list", build), ("generator", gen), ("sum", add), ("sum with list", add_list), ("export", lambda: bt.io.as_dataset(st, "pv"))):
        if equal:
            ok, v = c.works(f, f"states on equal grids are accepted ({name})")
            if ok and name != "export":
                c.check(len(v) == n and all(x is y for x, y in zip(v, st)), f"collection holds its states ({name})")
                c.check(v.grid == a, "grid of the collection")
        else:
            c.raises(f, f"states on different grids ({how}) at {sorted(odd)} of {n} are refused ({name})")


CASES = [(pairs, 150, 4000), (other_objects, 26, 60), (collections, 60, 1500)]
REQUIRED_EVENTS = {"pairs equal": 20, "pairs different": 40, "collections accepted": 8, "collections refused": 15, "foreign objects": 13}
