"""Random region selections and what they must contain."""
import numpy as np
from .gen import pick

# the coordinates a user names are decimal numbers, those of the grid have rounding errors
TOL = 1e-9


def named(rng, x):
    """A coordinate as a user writes it down."""
    return round(x, int(pick(rng, [9, 10, 12]))) if rng.random() < .4 else x


def lon_selection(c, g, valid_single=True):
    """A longitude selection and the indices it selects, in order."""
    rng, lon = c.rng, [float(x) for x in g.lon]
    n = len(lon)
    def value():
        k = rng.random()
        if k < .45:
            return named(rng, lon[rng.integers(n)])
        if k < .6: # next to a meridian, on either side
            return float(np.clip(lon[rng.integers(n)] + pick(rng, [-1, 1]) * (lon[1] - lon[0]) * np.exp(rng.uniform(np.log(1e-7), np.log(.5))), 0, 360))
        if k < .8:
            return float(rng.uniform(0, 360))
        if k < .9:
            return int(rng.integers(0, 361))
        return pick(rng, [0, 360, 0., 360., 359.999])
    kind = pick(rng, ["all", "range", "range", "range", "cross", "cross", "from", "to", "single"])
    if kind == "all":
        return slice(None, None), list(range(n)), kind
    if kind == "single":
        i = int(rng.integers(n))
        v = named(rng, lon[i])
        if rng.random() < .3:
            v = np.float64(v)
        if float(v).is_integer() and rng.random() < .3:
            v = int(v)
        return v, [i], kind
    if kind == "from":
        a = value()
        return slice(a, None), [i for i in range(n) if lon[i] >= a - TOL], kind
    if kind == "to":
        b = value()
        return slice(None, b), [i for i in range(n) if lon[i] <= b + TOL], kind
    a, b = value(), value()
    a, b = (min(a, b), max(a, b)) if kind == "range" else (max(a, b), min(a, b))
    if 0 < a - b < 1e-6: # twice the same meridian
        a, b = b, a
    if a <= b:
        return slice(a, b), [i for i in range(n) if a - TOL <= lon[i] <= b + TOL], "range"
    return slice(a, b), [i for i in range(n) if lon[i] >= a - TOL] + [i for i in range(n) if lon[i] <= b + TOL and lon[i] < a - TOL], kind


def lat_selection(c, g):
    rng, lat = c.rng, [float(x) for x in g.lat]
    n = len(lat)
    def value():
        k = rng.random()
        if k < .45:
            return named(rng, lat[rng.integers(n)])
        if k < .6: # next to a parallel, on either side
            return float(lat[rng.integers(n)] + pick(rng, [-1, 1]) * (lat[0] - lat[1]) * np.exp(rng.uniform(np.log(1e-7), np.log(.5))))
        if k < .8:
            return float(rng.uniform(-90, 90))
        if k < .9:
            return int(rng.integers(-90, 91))
        return pick(rng, [0, 90, -90, 0., -0., 95., -100])
    kind = pick(rng, ["all", "range", "range", "range", "from", "to", "single", "N", "S"])
    if kind == "all":
        return slice(None, None), list(range(n)), kind
    if kind == "N":
        return "N", [j for j in range(n) if lat[j] >= -TOL], kind
    if kind == "S":
        return "S", [j for j in range(n) if lat[j] <= TOL], kind
    if kind == "single":
        j = int(rng.integers(n))
        return pick(rng, [named(rng, lat[j]), np.float64(lat[j])]), [j], kind
    if kind == "from":
        a = value()
        return slice(a, None), [j for j in range(n) if lat[j] >= a - TOL], kind
    if kind == "to":
        b = value()
        return slice(None, b), [j for j in range(n) if lat[j] <= b + TOL], kind
    a, b = value(), value()
    return slice(a, b), [j for j in range(n) if min(a, b) - TOL <= lat[j] <= max(a, b) + TOL], kind


def selection(c, g, nonempty=False):
    """(region of the library, latitude indices, longitude indices)"""
    while True:
        lo, ii, klo = lon_selection(c, g)
        la, jj, kla = lat_selection(c, g)
        if nonempty and (not ii or not jj):
            continue
        break
    if kla == "all" and c.rng.random() < .4:
        key = lo
        region = g.region[lo]
    else:
        key = (lo, la)
        region = g.region[lo, la]
    c.note(region=repr(key), region_kinds=[klo, kla])
    return region, jj, ii
