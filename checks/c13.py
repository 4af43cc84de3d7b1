"""C13: nothing given to the library is modified and the order of accesses never matters."""
import datetime as dt, locale, os, random, sys, tempfile, warnings
import numpy as np, barotropic as bt
try: # absent in some processes of C37
    import matplotlib, matplotlib.pyplot as plt
except ImportError:
    matplotlib = plt = None
try:
    import xarray as xr
except ImportError:
    xr = None
from lib.gen import *
from lib.core import digest, Stop

RULE = "a case is a random history of public calls on shared objects; every result is compared with the same call on untouched twins, every argument and every array handed out before is digested around every call"

FIELDS = ["pv", "avo", "u", "v", "streamfunction", "vorticity", "vo", "enstrophy", "eddy_enstrophy", "energy", "pv_spectral",
          "pv_flux_spectral", "vorticity_spectral", "pv_zonalized", "fawa", "falwa", "falwa_filtered", "v_envelope_hilbert"]


class Env:
    """The shared objects of a history (or fresh twins of them, from the same seed)."""
    def __init__(self, seed, par):
        rng = np.random.default_rng(seed)
        self.grid = g = bt.Grid(**par["grid"])
        from lib.refsphere import RefSphere
        self.ref = ref = RefSphere(g.nlon, g.rsphere, g.omega)
        amp = vort_scale(ref)
        c1, c2 = (ref.random(rng, ref.nmax // 2, 1, 1., amp) for _ in range(2))
        self.pv = ref.synth(c1 + ref.c_fcor())
        self.vo = ref.synth(c2)
        self.wu, self.wv = ref.wind(c2)
        self.spec = np.array(g.to_spectral(self.pv))
        self.t0 = par["time"]
        how = par["how"]
        if how == "pv":
            self.s = bt.State(g, self.t0, pv=self.pv)
        elif how == "spectrum":
            self.s = bt.State(g, self.t0, pv_spectral=self.spec)
        elif how == "wind":
            self.s = bt.State.from_wind(g, self.t0, self.wu, self.wv)
        else:
            self.s = bt.State.from_vorticity(g, self.t0, self.vo)
        self.s2 = bt.State(g, self.t0, pv=self.vo)
        self.step = dt.timedelta(seconds=par["dt"]) if isinstance(self.t0, dt.datetime) else par["dt"]
        self.dt = par["dt"]
        self.refpv = self.pv + .3 * self.vo
        self.bg = self.vo + ref.f2
        self.olon = np.arange(0, 361., 20.)
        self.olat = np.arange(90., -91., -15.)
        self.oro = rng.normal(size=(self.olat.size, self.olon.size)) * 500.
        self.oro[:, -1] = self.oro[:, 0]
        self.levels = np.linspace(self.pv.min(), self.pv.max(), 7)[1:-1][rng.permutation(5)].copy()
        self.levels_up = np.sort(self.levels)
        self.mask = rng.normal(size=g.shape)
        self.win = np.array([.25, .5, .25])
        self.rhs_r = bt.rhs.LinearRelaxation(1e-3 / par["dt"], self.refpv)
        self.rhs_o = bt.rhs.Orography(self.olon, self.olat, self.oro, wind=("act", .5))
        self.rhs_m = bt.rhs.GaussianMountain(center=(350., 30.)) * bt.rhs.TimedOffSwitch(self.t0)
        self.model = bt.BarotropicModel(self.rhs_r + self.rhs_o, diffusion_order=2, diffusion_coeff=.1 / (par["dt"] * ref.eig[-1] ** 2))
        self.model_bg = bt.BarotropicModel(None, diffusion_coeff=.1 / (par["dt"] * ref.eig[-1] ** 2), diffusion_bg=self.bg)
        self.fields = {"q": "pv", "ub": lambda s: s.u.mean(axis=-1), "e": "energy"}
        self.names = [{"vo": "relvort"}, {"vo": "relvort", "lat": "lat"}, {"vo": "relvort", "time": "time"}][seed % 3]
        self.kwargs = [{"rsphere": g.rsphere, "omega": g.omega}, {"rsphere": g.rsphere}, {}, {"legfunc": "computed"}][seed % 4]
        self.ds = None if xr is None else xr.Dataset({"relvort": (("member", "lat", "lon"), np.stack([self.vo, self.pv]))},
                             {"lat": np.array(g.lat), "lon": np.array(g.lon), "member": [3, 1]}, attrs={"a": 1})
        self.list = [self.s, self.s2, self.s]
        self.sl = bt.StateList(self.list)
        self.region = g.region[300.:60., 0.:90.]
        self.profile = np.sort(rng.normal(size=g.nlat))[::-1].copy()
        self.u1 = np.cos(g.phi) * 20. * g.rsphere / 6371.2e3
        self.k1 = rng.uniform(.5, 6, size=g.nlat)
        self.k2 = rng.uniform(.5, 6, size=g.shape)
        self.ylat = np.linspace(80., -80., 9)
        self.yval = rng.normal(size=9)

    INPUTS = ["pv", "vo", "wu", "wv", "spec", "refpv", "bg", "olon", "olat", "oro", "levels", "levels_up", "mask", "win", "profile", "u1", "k1", "k2", "ylat", "yval"]

    def inputs(self):
        d = {k: digest(getattr(self, k)) for k in self.INPUTS}
        d["dataset"] = digest([[k, str(v.dims), np.asarray(v.values), dict(v.attrs)] for k, v in sorted(self.ds.variables.items())] + [dict(self.ds.attrs), list(self.ds.dims)])
        d["mappings"] = digest([sorted(self.fields), [id(v) for k, v in sorted(self.fields.items())], self.names, self.kwargs])
        d["list"] = digest([id(x) for x in self.list])
        return d


def grid_digest(g):
    out = {}
    for k in dir(g):
        if k.startswith("_"):
            continue
        v = getattr(g, k)
        if isinstance(v, (np.ndarray, float, int, np.generic)):
            out[k] = digest(v)
    return out


def surroundings(figures=True):
    """Settings of the process that belong to the user."""
    out = {"numpy's error handling": str(np.geterr()), "numpy's print options": str(np.get_printoptions()), "numpy's random state": digest(list(np.random.get_state())),
           "Python's random state": hash(random.getstate()), "warning filters": str(warnings.filters), "environment": str(sorted(os.environ.items())), "directory": os.getcwd(),
           "files": str(sorted(os.listdir("."))), "matplotlib's settings": str({k: v for k, v in matplotlib.rcParams.items()}), "locale": str(locale.setlocale(locale.LC_ALL)),
           "xarray's options": str(sorted(xr.get_options().items(), key=lambda x: x[0])), "recursion limit": sys.getrecursionlimit(), "module path": str(sys.path)}
    if figures:
        out["figures"] = str(plt.get_fignums())
    return out


def states(x):
    """The observable content of a result."""
    if isinstance(x, bt.State):
        return {"pv": np.asarray(x.pv), "time": x.time}
    if isinstance(x, (bt.StateList, list, tuple)):
        return [states(y) for y in x]
    if xr is not None and isinstance(x, xr.Dataset):
        return {str(k): np.asarray(v.values) for k, v in x.variables.items()}
    if isinstance(x, dict):
        return {k: states(v) for k, v in x.items()}
    return x


def op_field(name):
    return lambda e: getattr(e.s, name)

OPS = {("field " + f): op_field(f) for f in FIELDS}
OPS.update({
    "stationary_wavenumber": lambda e: e.s.stationary_wavenumber,
    "waveguides": lambda e: e.s.extract_ks_waveguides(4),
    "diag falwa levels": lambda e: bt.diagnostics.falwa(e.s, levels=e.levels, interpolate=False),
    "diag falwa box": lambda e: bt.diagnostics.falwa(e.pv, e.grid, quad="boxcount"),
    "diag fawa": lambda e: bt.diagnostics.fawa(e.pv, e.grid),
    "diag ks array": lambda e: bt.diagnostics.stationary_wavenumber(e.u1, e.grid, kind="squared"),
    "diag ks squared": lambda e: bt.diagnostics.stationary_wavenumber(e.s, kind="squared"),
    "diag guides array": lambda e: bt.diagnostics.extract_ks_waveguides(bt.diagnostics.stationary_wavenumber(e.u1, e.grid), 3, e.grid),
    "diag fourier": lambda e: bt.diagnostics.dominant_wavenumber_fourier(e.s.v, e.grid),
    "diag hilbert": lambda e: bt.diagnostics.envelope_hilbert(e.vo, (1, 4)),
    "diag filter 1d": lambda e: bt.diagnostics.filter_by_wavenumber(e.s.falwa, e.k1),
    "diag filter 2d": lambda e: bt.diagnostics.filter_by_wavenumber(e.vo, e.k2),
    "zonalize": lambda e: e.grid.zonalize(e.pv, levels=e.levels, interpolate=False),
    "zonalize up": lambda e: e.grid.zonalize(e.pv, levels=e.levels_up, interpolate=False),
    "zonalize interpolated": lambda e: e.grid.zonalize(e.pv, levels=e.levels),
    "diag fawa levels": lambda e: bt.diagnostics.fawa(e.pv, e.grid, levels=e.levels_up, interpolate=False),
    "zonalize auto": lambda e: e.grid.zonalize(e.s.pv),
    "quad": lambda e: [e.grid.quad(e.pv, e.mask, method=m) for m in ("sptrapz", "boxcount")],
    "quad_meridional": lambda e: [e.grid.quad_meridional(e.pv, e.mask, method=m) for m in ("sptrapz", "boxcount")],
    "mean": lambda e: [e.grid.mean(e.pv), e.grid.mean(e.pv, axis="zonal"), e.grid.mean(e.s.u, axis="meridional", region=e.region)],
    "filters": lambda e: [e.grid.filter_meridional(e.pv, "hann", 40), e.grid.filter_zonal(e.s.u, e.win), e.grid.filter_zonal(e.pv, "boxcar", 50)],
    "derivative": lambda e: [e.grid.derivative_meridional(e.profile, 2), e.grid.derivative_meridional(e.s.pv)],
    "interpolate": lambda e: [e.grid.interpolate_meridional(e.yval, e.ylat, pole_values=(1., -1.)), e.grid.interpolate_meridional(e.profile, e.grid.lat, pole_values=(e.profile[0], e.profile[-1]))],
    "operators": lambda e: [e.grid.gradient(e.s.streamfunction), e.grid.laplace(e.vo), e.grid.divergence(e.wu, e.wv), e.grid.vorticity(e.s.u, e.s.v)],
    "vd": lambda e: list(e.grid.vorticity_divergence(e.wu, e.wv)) + list(e.grid.wind(e.vo, np.zeros_like(e.vo))),
    "poisson": lambda e: [e.grid.solve_poisson(e.vo), e.grid.solve_poisson_spectral(e.spec), e.grid.solve_poisson(e.vo, 3. / e.grid.rsphere ** 2)],
    "diffuse": lambda e: [e.grid.solve_diffusion(e.vo, e.dt, 1e-3 * e.grid.rsphere ** 4 / e.dt, 2), e.grid.solve_diffusion_spectral(e.spec, e.dt, 1e-3 * e.grid.rsphere ** 4 / e.dt, 2)],
    "transform": lambda e: [e.grid.to_spectral(e.vo), e.grid.to_grid(e.spec)],
    "region": lambda e: [e.region.extract(e.pv, e.profile), e.region.mask, e.region.mean(e.s.pv), e.region.lon_mono, e.region.gridpoint_area],
    "region of s": lambda e: e.region.extract(e.s.pv, e.s.u),
    "add_wind state": lambda e: e.s.add_wind(e.s2),
    "add_wind field": lambda e: e.s.add_wind((e.wu, e.wv)),
    "add_vorticity state": lambda e: e.s2.add_vorticity(e.s),
    "add_vorticity field": lambda e: e.s.add_vorticity(e.vo),
    "rhs relax": lambda e: e.rhs_r(e.s),
    "rhs orography": lambda e: e.rhs_o(e.s),
    "rhs product": lambda e: e.rhs_m(e.s),
    "rhs sum": lambda e: (e.rhs_r + e.rhs_m * e.rhs_o)(e.s2),
    "orography": lambda e: e.rhs_o.orography(e.grid),
    "euler": lambda e: e.model.euler(e.s, e.step),
    "leapfrog": lambda e: e.model.leapfrog(e.s, e.model.euler(e.s, e.step), .1),
    "euler bg": lambda e: e.model_bg.euler(e.s, e.step),
    "run": lambda e: e.model.run(e.s, e.step, e.t0 + 3 * e.step),
    "run saves": lambda e: e.model_bg.run(e.s, e.step, e.t0 + 3 * e.step, e.dt) if not isinstance(e.t0, dt.datetime) else None,
    "state.run": lambda e: e.s.run(e.model, e.step, e.t0 + 2 * e.step),
    "list run": lambda e: e.sl.run(e.model_bg, e.step, e.t0 + 2 * e.step),
    "list attributes": lambda e: [e.sl.pv, e.sl.energy, e.sl.add_vorticity(e.vo), e.sl.map(lambda s: float(np.max(s.pv)))],
    "from inputs": lambda e: [bt.State(e.grid, 0, pv=e.pv), bt.State.from_wind(e.grid, 0, e.wu, e.wv), bt.State.from_vorticity(e.grid, 0, e.vo)],
    "init": lambda e: [bt.init.zonally_symmetric(e.grid, u=e.u1), bt.init.zonally_symmetric(e.grid, pv=e.profile), bt.init.gaussian_jet(e.grid)],
    "as_dataset": lambda e: bt.io.as_dataset(e.list, e.fields),
    "list as_dataset": lambda e: e.sl.as_dataset(["u", "v"]),
    "from_dataset": lambda e: bt.io.from_dataset(e.ds, e.names, e.kwargs, e.t0),
    "hn2016": lambda e: np.asarray(e.s.as_hn2016().pv_field),
    "hn2016 back": lambda e: bt.State.from_hn2016(e.grid, 0., e.s.as_hn2016()),
    "hovmoellerify": lambda e: bt.plot.hovmoellerify(e.list, lambda s: s.v.mean(axis=0))[2],
    "roll_lon": lambda e: bt.plot.roll_lon(e.grid.lon, 30.)[0](e.s.pv),
    "reduce_vectors": lambda e: bt.plot.reduce_vectors(e.grid.lon2, e.grid.lat2, e.s.u, e.wv, 5),
    "repr": lambda e: [repr([e.grid, e.s, e.sl, e.model_bg, e.region]), len(repr(e.model)) > 0][0],
    "compare": lambda e: [e.grid == e.s2.grid, hash(e.grid) == hash(e.s.grid)],
})
PLOTS = {
    "plot summary": lambda e: bt.plot.summary(e.s, center_lon=30., hemisphere="N"),
    "plot wave activity": lambda e: e.s.plot.wave_activity(),
    "plot rwp": lambda e: bt.plot.rwp_diagnostics(e.s),
    "plot waveguides": lambda e: bt.plot.waveguides(e.s, k_waveguides=[3, 4, 5]),
    "plot summary options": lambda e: bt.plot.summary(e.s, pv_cmap="viridis", pv_max=.4 * float(np.max(np.abs(e.s.pv))), v_max=.2 * float(np.max(np.abs(e.s.u))), center_lon=0., hemisphere="S"),
    "plot wave activity options": lambda e: bt.plot.wave_activity(e.s, center_lon=90., hemisphere="N", falwa_cmap="viridis"),
    "plot rwp options": lambda e: bt.plot.rwp_diagnostics(e.s, hemisphere="S", center_lon=0., v_max=.3 * float(np.max(np.abs(e.s.v))), rwp_max=.5 * float(np.max(np.abs(e.s.v)))),
    "plot waveguides options": lambda e: bt.plot.waveguides(e.s, hemisphere="N", klim_bounds=(0, 8)),
}


def _flat(x, path=""):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from _flat(x[k], f"{path}.{k}")
    elif isinstance(x, (list, tuple)):
        yield path + ".len", len(x)
        for i, y in enumerate(x):
            yield from _flat(y, f"{path}[{i}]")
    else:
        yield path, x


def same(c, got, want, msg, noise):
    a, b = list(_flat(got)), list(_flat(want))
    if not c.equal([p for p, _ in a], [p for p, _ in b], f"{msg}: structure"):
        return
    for (p, x), (_, y) in zip(a, b):
        if isinstance(y, (np.ndarray, float, np.floating, complex, np.complexfloating)) and np.asarray(y).dtype.kind in "fc":
            c.close(x, y, f"{msg}{p}", rtol=noise, nonfinite=True, scale=np.max(np.abs(np.where(np.isfinite(y), y, 0.)), initial=0.))
        elif isinstance(y, np.ndarray):
            c.check(np.array_equal(x, y), f"{msg}{p}: differs")
        else:
            c.check(x == y, f"{msg}{p}: {x!r} instead of {y!r}"[:300])


def handed_out(x, seen, depth=0):
    """Arrays the user now holds."""
    if isinstance(x, np.ndarray):
        seen.append(x)
    elif isinstance(x, (list, tuple)) and depth < 4:
        for y in x:
            handed_out(y, seen, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            handed_out(y, seen, depth + 1)


def _history(c, length, names):
    home = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif-c13-") as scratch: # files written anywhere near would be seen here
        os.chdir(scratch)
        try:
            _histories(c, length, names)
        finally:
            os.chdir(home)


def _histories(c, length, names):
    par = dict(
        grid=dict(resolution=360. / pick(c.rng, [20, 24, 36]), rsphere=pick(c.rng, [EARTH_R, 1e5]), omega=pick(c.rng, [EARTH_W, 1e-4])),
        time=pick(c.rng, [0., 7200, dt.datetime(2020, 2, 28, 23, 30)]), dt=pick(c.rng, [600, 900.]), how=pick(c.rng, ["pv", "spectrum", "wind", "vorticity"]))
    if c.rng.random() < .3:
        par["grid"]["ntrunc"] = 8
    seed = int(c.rng.integers(2 ** 31))
    e = Env(seed, par)
    ops = [pick(c.rng, names) for _ in range(length)]
    for k in range(2, length, 5): # repetitions
        ops[k] = ops[int(c.rng.integers(k))]
    c.note(**{k: str(v) for k, v in par.items()}, ops=ops)
    table = {**OPS, **PLOTS}
    g0 = grid_digest(e.grid)
    kept = []
    for k, name in enumerate(ops):
        before = e.inputs()
        around = surroundings(figures=not name.startswith("plot"))
        ok, out = c.works(lambda: table[name](e), f"{name} after {ops[:k]}")
        if not ok:
            return
        now = surroundings(figures=not name.startswith("plot"))
        c.check(around == now, f"{name} changed {[q for q in around if around[q] != now[q]]}")
        c.event("settings of the process compared", len(now))
        plt.close("all")
        after = e.inputs()
        for key in before:
            c.check(before[key] == after[key], f"{name} modified its input '{key}'")
        c.event("inputs digested", len(before))
        for other, arr, d in kept:
            if not c.check(digest(arr) == d, f"{name} modified an array returned earlier by '{other}'"):
                return
        c.event("returned arrays digested", len(kept))
        g1 = grid_digest(e.grid)
        c.check(g0 == g1, f"{name} modified the grid: {[q for q in g0 if g0[q] != g1.get(q)]}")
        if not name.startswith("plot"):
            twin = Env(seed, par)
            same(c, states(out), states(table[name](twin)), f"{name} after {ops[:k]}", 1e-5)
            c.event("results compared with untouched twins")
            arrs = []
            handed_out(out, arrs)
            kept += [(name, a, digest(a)) for a in arrs]
        if c.failed:
            return
    # final state of all fields in random order
    twin = Env(seed, par)
    order = list(FIELDS)
    c.rng.shuffle(order)
    for f in order:
        same(c, getattr(e.s, f), getattr(twin.s, f), f"field {f} after {ops}", 1e-5)
        same(c, getattr(e.s2, f), getattr(Env(seed, par).s2, f), f"field {f} of the other state after {ops}", 1e-5)
    c.check(e.s.time == e.t0 and e.s.grid is e.grid, "time and grid of the state")
    c.event("histories")


def history(c):
    _history(c, int(c.rng.integers(6, 16)), list(OPS))


def history_plots(c):
    names = list(PLOTS) * 4 + [n for n in OPS if n.startswith("field") or n.startswith("diag")]
    _history(c, int(c.rng.integers(4, 8)), names)


def every_op(c):
    """Each operation at least once, on a fresh environment and after all fields were read."""
    names = sorted(OPS) + sorted(PLOTS)
    name = names[c.index % len(names)]
    c.note(op=name)
    _history(c, 3, [name, "field pv", "field u", name])


QUICK_SCALE = 4
CASES = [(every_op, len(OPS) + len(PLOTS), 8 * (len(OPS) + len(PLOTS))), (history, 25, 1500), (history_plots, 4, 100)]
REQUIRED_EVENTS = {"settings of the process compared": 5000, "histories": 50, "inputs digested": 1000, "returned arrays digested": 200, "results compared with untouched twins": 200}
