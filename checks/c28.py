"""C28: exchange with the falwa package."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.core import digest
from checks.c12 import build, HOW

RULE = "a case is a planet, grid, flow, way of building the state, times, keyword arguments and target grid (none, the same object, an equal one, other planet); the falwa object and the state made from it are compared point by point with the original and the float64 reference"
TOL = 3e-5


def exchange(c):
    from falwa.barotropic_field import BarotropicField
    w = world(c, NLON_SMALL + [14, 22, 26, 34, 48, 60])
    g, ref = w.grid, w.ref
    x = flow(c, w)
    how = pick(c.rng, HOW[:4])
    t, t2 = times(c), times(c)
    s = build(g, ref, how, t, x, c.rng)
    if c.rng.random() < .4:
        s.u, s.streamfunction
    q = np.max(np.abs(ref.synth(x))) + 2 * abs(ref.omega)
    kw = {}
    if c.rng.random() < .6:
        for k, v in {"planet_radius": ref.r, "n_partitions": int(c.rng.integers(5, 60)), "area": c.rng.uniform(1, 2, ref.shape), "return_partitioned_lwa": True}.items():
            if c.rng.random() < .5:
                kw[k] = v
    c.note(built_from=how, time=str(t), t2=str(t2), kwargs=sorted(kw))
    before = digest(np.asarray(s.pv))
    ok, b = c.works(lambda: s.as_hn2016(**kw), "conversion")
    if not ok:
        return
    c.check(isinstance(b, BarotropicField), "type of the falwa object")
    c.equal((b.nlat, b.nlon), g.shape, "shape")
    c.close(b.xlon, ref.lon, "longitudes", atol=1e-9)
    c.close(b.ylat, ref.lat[::-1], "latitudes from south to north", atol=1e-9)
    c.check(bool(np.all(np.diff(b.ylat) > 0)), "latitudes increase")
    pv = np.asarray(s.pv)
    bp = np.asarray(b.pv_field)
    if c.equal(bp.shape, pv.shape, "shape of the PV field"):
        # point by point, looked up by coordinate
        want = ref.synth(x) + ref.f2
        for j in range(g.nlat):
            k = int(np.argmin(np.abs(ref.lat - float(b.ylat[j]))))
            c.check(np.array_equal(bp[j], pv[k]), f"PV at {float(b.ylat[j]):.2f}N is not the state's")
            c.close(bp[j], want[k], f"PV at {float(b.ylat[j]):.2f}N", atol=TOL * q)
    for k, v in kw.items():
        got = getattr(b, k)
        c.check(np.array_equal(np.asarray(got), np.asarray(v)), f"keyword argument {k} reaches the constructor")
    if "planet_radius" not in kw:
        c.check(b.planet_radius == BarotropicField(b.xlon, b.ylat, bp).planet_radius, "constructor's default radius")
    c.check(digest(np.asarray(s.pv)) == before and s.time == t, "state is not changed")
    # and back again
    target = pick(c.rng, ["none", "none", "same", "equal", "other planet"])
    c.note(target=target)
    grid = {"none": lambda: None, "same": lambda: g, "equal": lambda: bt.Grid(360. / g.nlon, rsphere=ref.r, omega=ref.omega), "other planet": lambda: bt.Grid(360. / g.nlon, rsphere=2 * ref.r, omega=3e-5)}[target]()
    ok, back = c.works(lambda: bt.State.from_hn2016(grid, t2, b), f"conversion back, target grid: {target}")
    if ok:
        c.check(isinstance(back, bt.State), "type")
        c.check(back.time is t2 or back.time == t2, "time is the given one")
        if grid is not None:
            c.check(back.grid is grid, "given grid is used")
        c.equal(back.grid.shape, g.shape, "grid size")
        c.close(back.grid.lon, ref.lon, "longitudes", atol=1e-8)
        c.close(back.grid.lat, ref.lat, "latitudes", atol=1e-8)
        c.close(back.pv, pv, "PV after conversion there and back", atol=TOL * q)
        c.close(back.pv, ref.synth(x) + ref.f2, "PV after conversion there and back (reference)", atol=2 * TOL * q)
        if target in ("same", "equal"):
            c.close(back.u, s.u, "wind after conversion there and back", atol=3 * TOL * q * ref.r)
    c.check(digest(np.asarray(s.pv)) == before, "state is not changed by the way back")
    c.event("exchanges")


def foreign(c):
    """Objects made by falwa itself (latitudes from south to north, any layout)."""
    from falwa.barotropic_field import BarotropicField
    w = world(c, NLON_SMALL + [22, 26])
    g, ref = w.grid, w.ref
    x = flow(c, w)
    want = ref.synth(x) + ref.f2
    q = np.max(np.abs(ref.synth(x))) + 2 * abs(ref.omega)
    pv = want[::-1]
    form = pick(c.rng, ["view", "copy", "fortran", "f32", "ro"])
    if form == "copy":
        pv = pv.copy()
    elif form == "fortran":
        pv = np.asfortranarray(pv)
    elif form == "f32":
        pv = pv.astype(np.float32)
    elif form == "ro":
        pv = pv.copy(); pv.flags.writeable = False
    kw = {} if c.rng.random() < .5 else {"planet_radius": ref.r}
    b = BarotropicField(ref.lon.copy(), ref.lat[::-1].copy(), pv_field=pv, **kw)
    before = digest(np.asarray(b.pv_field))
    target = pick(c.rng, [None, g])
    t = times(c)
    c.note(form=form, target=target is not None, time=str(t))
    s = bt.State.from_hn2016(target, t, b)
    c.close(s.pv, want, "PV of a falwa object", atol=TOL * q)
    c.check(s.time == t, "time")
    if target is not None:
        u, v = ref.wind(x)
        c.close(s.u, u, "wind of a falwa object", atol=3 * TOL * q * ref.r)
    c.check(digest(np.asarray(b.pv_field)) == before, "falwa object is not changed")
    c.event("foreign objects")


def sizes(c):
    """Matching grids for any resolution, refusal of other sizes."""
    n = int(c.rng.integers(4, 130)) * 2
    c.note(nlon=n, i=c.index)
    g = bt.Grid(360. / n, legfunc="computed")
    s = bt.init.motionless(g, 3)
    b = s.as_hn2016()
    ok, back = c.works(lambda: bt.State.from_hn2016(None, 4, b), f"matching grid with {n} longitudes")
    if ok:
        c.equal(back.grid.shape, (n // 2 + 1, n), "shape of the matching grid")
        c.close(back.pv, s.pv, "PV", atol=1e-5 * 1.5e-4)
    for k in (2, 4, -2, 12, n):
        if n + k >= 8:
            c.raises(lambda: bt.State.from_hn2016(bt.Grid(360. / (n + k), legfunc="computed"), 0, b), f"target grid with {n + k} instead of {n} longitudes")
            c.event("refusals")
    c.event("sizes")


CASES = [(exchange, 40, 1500), (foreign, 25, 800), (sizes, 12, 250)]
REQUIRED_EVENTS = {"exchanges": 30, "foreign objects": 20, "sizes": 10, "refusals": 30}
