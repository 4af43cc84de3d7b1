"""C30: what the plots show."""
import datetime as dt, re
import contextlib
import numpy as np, barotropic as bt
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from lib.gen import *
from lib.core import digest
from checks.c12 import build, HOW

RULE = "a case is a planet, grid, flow, time, plot preset and its options; every call received by a matplotlib axes is recorded and the value drawn at every labelled position is looked up in the state's field there"
DRAWS = ["contourf", "contour", "quiver", "plot", "pcolormesh", "imshow"]


@contextlib.contextmanager
def recorder():
    """Event log of everything drawn on any axes."""
    log = []
    saved = {}
    for name in DRAWS:
        orig = getattr(Axes, name)
        saved[name] = orig
        def wrapper(self, *args, _orig=orig, _name=name, **kw):
            out = _orig(self, *args, **kw)
            log.append((self, _name, [np.array(a) if not isinstance(a, str) else a for a in args], dict(kw), out))
            return out
        setattr(Axes, name, wrapper)
    try:
        yield log
    finally:
        for name, orig in saved.items():
            setattr(Axes, name, orig)


def lon_of_axis(c, ax, g, msg):
    """Longitude that the axis labels give to a position x."""
    ticks, labels = ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]
    vals = [re.fullmatch(r"\s*[-−]?\d+(\.\d+)?\s*°?\s*", s) for s in labels]
    if not c.check(len(ticks) >= 4 and len(ticks) == len(labels) and all(vals), f"{msg}: longitude labels {labels}"):
        return None
    nums = np.array([float(s.replace("°", "").replace("−", "-")) for s in labels])
    off = np.deg2rad(np.asarray(ticks, float) - nums)
    mean = np.rad2deg(np.angle(np.mean(np.exp(1j * off))))
    dev = (np.asarray(ticks) - nums - mean + 180) % 360 - 180
    if not c.check(np.max(np.abs(dev)) <= 1.01, f"{msg}: longitude labels {labels} at {list(ticks)} are no shift"):
        return None
    return lambda x: (np.asarray(x, float) - mean) % 360


def column_index(lons, g):
    """Grid columns with these (label, so rounded to a degree) longitudes."""
    k = np.rint(np.asarray(lons) / (360. / g.nlon)).astype(int)
    return k % g.nlon


def row_index(c, y, g, msg):
    j = np.rint((90. - np.asarray(y, float)) / (180. / (g.nlat - 1))).astype(int)
    c.check(bool(np.all((j >= 0) & (j < g.nlat))) and np.allclose(np.asarray(g.lat)[np.clip(j, 0, g.nlat - 1)], y, atol=1e-6), f"{msg}: drawn at latitudes of the grid")
    return np.clip(j, 0, g.nlat - 1)


def check_map(c, log, ax, kind, g, field, msg, center=None, optional=False, scale=0.):
    calls = [e for e in log if e[0] is ax and e[1] == kind]
    if optional and not calls:
        return None
    if not c.equal(len(calls), 1, f"{msg}: number of {kind} calls"):
        return None
    x, y, z = calls[0][2][:3]
    look = lon_of_axis(c, ax, g, msg)
    if look is None:
        return None
    if not c.equal(z.shape, g.shape, f"{msg}: shape of the drawn field"):
        return None
    X, Y = (x, y) if x.ndim == 2 else np.meshgrid(x, y)
    if not c.equal(X.shape, g.shape, f"{msg}: shape of the coordinates"):
        return None
    jj = row_index(c, Y, g, msg)
    ii = column_index(look(X), g)
    field = np.asarray(field, float)
    c.close(z, field[jj, ii], f"{msg}: value at the labelled position", atol=2e-6 * max(np.max(np.abs(field)), scale, 1e-300))
    c.check(len(set(ii[0].tolist())) == g.nlon, f"{msg}: every meridian is drawn")
    c.check(len(set(jj[:, 0].tolist())) == g.nlat, f"{msg}: every parallel is drawn")
    c.event("maps")
    c.event("drawn points", z.size)
    if center is not None:
        mid = np.sort(X[0])[g.nlon // 2]
        d = (np.asarray(g.lon)[column_index(look(mid), g)] - center + 180) % 360 - 180
        c.check(abs(d) <= 180. / g.nlon + 1e-6, f"{msg}: meridian {float(np.asarray(g.lon)[column_index(look(mid), g)]):.2f} is at the centre, requested {center}")
    return calls[0]


def check_quiver(c, log, ax, g, u, v, msg, motionless):
    calls = [e for e in log if e[0] is ax and e[1] == "quiver"]
    if motionless:
        return
    if not c.equal(len(calls), 1, f"{msg}: number of quiver calls"):
        return
    q = calls[0][4]
    x, y, uu, vv = (np.asarray(np.ma.filled(a, np.nan), float).ravel() for a in (q.X, q.Y, q.U, q.V))
    look = lon_of_axis(c, ax, g, msg)
    if look is None:
        return
    jj, ii = row_index(c, y, g, msg), column_index(look(x), g)
    s = max(np.max(np.abs(u)), np.max(np.abs(v)))
    c.check(x.size >= 4, f"{msg}: {x.size} vectors")
    c.close(uu, np.asarray(u, float)[jj, ii], f"{msg}: zonal component of the vector at the labelled position", atol=2e-6 * s)
    c.close(vv, np.asarray(v, float)[jj, ii], f"{msg}: meridional component of the vector at the labelled position", atol=2e-6 * s)
    rows = len(set(y.tolist()))
    c.check(rows >= min(8, g.nlat // 2), f"{msg}: {rows} rows of vectors")
    c.event("vectors", x.size)


def check_profile(c, ax, g, prof, msg, label=None, field=None):
    """One of the lines of the panel is the profile."""
    prof = np.asarray(prof, float)
    fin = np.isfinite(prof)
    # a mean that cancels has the accuracy of the averaged field
    tol = max(1e-5 * np.max(np.abs(prof[fin]), initial=0.), 1e-6 * np.max(np.abs(field)) if field is not None else 0., 1e-300)
    hits, named = [], None
    for line in ax.lines:
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        if x.shape == prof.shape and y.shape == prof.shape and np.allclose(y, g.lat):
            same = np.array_equal(np.isfinite(x), fin) and np.all(np.abs(x[fin] - prof[fin]) <= tol)
            hits.append(bool(same))
            if label is not None and line.get_label() == label:
                named = bool(same)
    c.check(any(hits), f"{msg}: no line of the panel is this profile over latitude ({len(hits)} lines)")
    if label is not None and c.check(named is not None, f"{msg}: no line is labelled {label}: {[l.get_label() for l in ax.lines]}"):
        c.check(named, f"{msg}: line labelled {label} is another profile")
    c.event("profiles")


def check_lat_axis(c, ax, hemisphere, msg):
    lo, hi = ax.get_ylim()
    want = {"N": (0, 90), "S": (-90, 0)}.get(hemisphere, (-90, 90))
    c.check(abs(lo - want[0]) < 1e-9 and abs(hi - want[1]) < 1e-9, f"{msg}: latitude axis {(lo, hi)} for hemisphere {hemisphere}")
    for y in (want[0], want[1], 0., 30., -45.):
        text = str(ax.yaxis.get_major_formatter()(y, 0)).replace("−", "-")
        num = re.match(r"\s*(-?\d+(\.\d+)?)", text)
        c.check(num is not None and abs(float(num.group(1)) - y) < 1., f"{msg}: latitude {y} is labelled {text!r}")


def check_filled(c, e, field, msg, cmap=None, reach=None, covers=True, scale=0.):
    """Colours of a filled map: its colour bar, colour map and levels."""
    if e is None:
        return
    cs = e[4]
    c.check(cs.colorbar is not None and cs.colorbar.mappable is cs, f"{msg}: no colour bar")
    if cmap is not None:
        c.equal(cs.get_cmap().name, cmap, f"{msg}: colour map")
    lv = np.asarray(cs.levels, float)
    if reach is not None:
        c.close([lv.min(), lv.max()], [-reach, reach], f"{msg}: levels with override", rtol=1e-6)
    f = np.asarray(field, float)
    if f.max() > lv.max() + 1e-5 * max(np.max(np.abs(f)), scale):
        c.check(cs.extend in ("both", "max"), f"{msg}: nothing is drawn where the field exceeds {lv.max()}: up to {f.max()}")
    if reach is not None and f.min() < lv.min() * (1 + 1e-6):
        c.check(cs.extend in ("both", "min"), f"{msg}: nothing is drawn where the field is below {lv.min()}: down to {f.min()}")
    if reach is None and covers:
        tol = 1e-5 * max(np.max(np.abs(f), initial=1e-300), scale) # a difference has the accuracy of its terms
        c.check(lv.max() >= f.max() - tol, f"{msg}: levels end at {lv.max()}, field at {f.max()}")
        if covers is True:
            c.check(lv.min() <= f.min() + tol, f"{msg}: levels start at {lv.min()}, field at {f.min()}")
    c.event("filled maps")


def check_lines(c, e, field, msg):
    """Contour lines: some level is inside the range of the field."""
    if e is None:
        return
    f, lv = np.asarray(field, float), np.asarray(e[4].levels, float)
    c.check(np.sum((lv > f.min()) & (lv < f.max())) >= 5, f"{msg}: levels {lv} of a field from {f.min()} to {f.max()}")
    c.event("contour maps")


TITLES = {
    "summary": ["vort", "pv&wind vectors", "zonal wind", "meridional wind&streamfunction"],
    "wave_activity": ["pv", "deviation&pv", "fawa", "falwa&pv"],
    "rwp_diagnostics": ["meridional wind&dominant wavenumber", "envelope&streamfunction", "falwa&pv"],
    "waveguides": ["wind", "stationary wavenumber"],
}

def check_titles(c, axes, which):
    for ax, words in zip(axes, TITLES[which]):
        got = " ".join(ax.get_title(loc=l) for l in ("left", "center", "right")).lower()
        c.check(all(x in got for x in words.split("&")), f"{which}: title {got!r} of the panel of {words}")


def check_legend(c, ax, labels, msg):
    leg = ax.get_legend()
    if c.check(leg is not None, f"{msg}: no legend"):
        c.equal(sorted(t.get_text() for t in leg.get_texts()), sorted(labels), f"{msg}: legend")


def _state(c, nlons=(24, 30, 32, 36, 40, 48, 60)):
    kind = pick(c.rng, ["eddies"] * 5 + ["zonal", "rest", "constant", "rotation"])
    if kind == "rotation": # meridional wind exactly 0 on such grids
        nlons = (32, 32, 64, 36)
    w = world(c, list(nlons), legfunc=False, radii=[EARTH_R, EARTH_R, 3389.5e3], omegas=[EARTH_W, EARTH_W, 1.4e-4, -7e-5, 0.])
    g, ref = w.grid, w.ref
    t = times(c)
    if kind == "rest":
        s = bt.init.motionless(g, t)
    elif kind == "rotation":
        s = bt.init.solid_body_rotation(g, t, float(pick(c.rng, [1., -20., .03, 60.])))
        if not np.any(s.v):
            c.event("no meridional wind")
    elif kind == "constant":
        s = bt.State.from_vorticity(g, t, -ref.f2)
    else:
        x = flow(c, w, min(w.band, 12), zonal=kind == "zonal", amplitude=4e-5)
        s = build(g, ref, pick(c.rng, HOW[:4]), t, x, c.rng)
    c.note(flow=kind, time=str(t))
    return w, s, kind


def _options(c, g, center=True):
    o = {}
    if c.rng.random() < .85 and center:
        o["center_lon"] = pick(c.rng, [0, 180, 90, -90, 360, 359.9, 270., 45, 10.5, float(c.rng.uniform(-400, 800)), int(c.rng.integers(0, 360)), np.float64(c.rng.uniform(0, 360)), float(g.lon[int(c.rng.integers(g.nlon))])])
    if c.rng.random() < .8:
        o["hemisphere"] = pick(c.rng, ["N", "S", "both", "N", "S"])
    if c.rng.random() < .2:
        o["figsize"] = (8, 5)
    return o


def _titles(c, axes, s):
    for ax in axes:
        c.check(bt.formatting.format_time(s.time) in ax.get_title(loc="right"), "time in the title")


def presets(c):
    which = pick(c.rng, ["summary", "summary", "wave_activity", "rwp_diagnostics"])
    w, s, kind = _state(c)
    g = w.grid
    o = _options(c, g)
    if which == "summary":
        if c.rng.random() < .3: o["pv_max"] = 2.5e-4
        if c.rng.random() < .3: o["v_max"] = 33.
        if c.rng.random() < .2: o["pv_cmap"] = "plasma"
    elif which == "rwp_diagnostics":
        if c.rng.random() < .3: o["v_max"] = 33.
        if c.rng.random() < .3: o["rwp_max"] = 20.
        if c.rng.random() < .2: o["rwp_cmap"] = "plasma"
    elif c.rng.random() < .2:
        o["falwa_cmap"] = "plasma"
    c.note(which=which, options={k: str(v) for k, v in o.items()})
    center, hemi = o.get("center_lon", 180), o.get("hemisphere", "both")
    pv, u, v, psi = (np.asarray(getattr(s, k), float) for k in ("pv", "u", "v", "streamfunction"))
    before = digest([np.asarray(getattr(s, k)) for k in ("pv", "u", "v")])
    still = float(np.linalg.norm(s.u)) == 0. and float(np.linalg.norm(s.v)) == 0.
    plt.close("all")
    try:
        with recorder() as log:
            ok, fig = c.works(lambda: getattr(bt.plot, which)(s, **o), f"plot.{which}")
        if not ok:
            return
        c.check(isinstance(fig, matplotlib.figure.Figure), "figure is returned")
        ax = fig.axes
        if which == "summary":
            a11, a12, a21, a22 = ax[:4]
            e = check_map(c, log, a12, "contourf", g, 1e4 * pv, "PV map", center)
            check_filled(c, e, 1e4 * pv, "PV map", o.get("pv_cmap", "viridis"), 1e4 * o["pv_max"] if "pv_max" in o else None)
            check_quiver(c, log, a12, g, u, v, "wind vectors", still)
            e = check_map(c, log, a22, "contourf", g, v, "v map", center)
            check_filled(c, e, v, "v map", None, o.get("v_max"))
            e = check_map(c, log, a22, "contour", g, psi, "streamfunction contours", center, optional=float(np.ptp(s.streamfunction)) == 0)
            if kind == "eddies":
                check_lines(c, e, psi, "streamfunction contours")
            m = lambda f: np.mean(f, axis=1)
            check_profile(c, a11, g, 2e4 * w.ref.omega * np.sin(w.ref.phi), "planetary vorticity", "pla.")
            check_profile(c, a11, g, 1e4 * m(np.asarray(s.vorticity, float)), "zonal-mean relative vorticity", "rel.", 1e4 * pv)
            check_profile(c, a11, g, 1e4 * m(pv), "zonal-mean PV", "pot.", 1e4 * pv)
            check_profile(c, a21, g, m(u), "zonal-mean zonal wind", field=u)
            check_legend(c, a11, ["pla.", "rel.", "pot."], "vorticity panel")
            maps = (a12, a22)
        elif which == "wave_activity":
            a11, a12, a21, a22 = ax[:4]
            zl = 1e4 * np.asarray(s.pv_zonalized, float)
            flat = float(np.ptp(s.pv)) <= 1e-5 * np.max(np.abs(pv)) # contours of numerical noise
            e = check_map(c, log, a12, "contourf", g, 1e4 * pv - zl[:, None], "PV deviation map", center, scale=np.max(np.abs(zl)))
            check_filled(c, e, 1e4 * pv - zl[:, None], "PV deviation map", covers=kind == "eddies", scale=np.max(np.abs(zl)))
            e = check_map(c, log, a12, "contour", g, 1e4 * pv, "PV contours", center, optional=flat)
            if not flat:
                check_lines(c, e, 1e4 * pv, "PV contours")
            e = check_map(c, log, a22, "contourf", g, s.falwa, "FALWA map", center)
            check_filled(c, e, s.falwa, "FALWA map", o.get("falwa_cmap", "YlOrRd"), covers=kind == "eddies")
            e = check_map(c, log, a22, "contour", g, 1e4 * pv, "PV contours on FALWA", center, optional=flat)
            if not flat:
                check_lines(c, e, 1e4 * pv, "PV contours on FALWA")
            check_legend(c, a11, ["equiv. lat.", "mean"], "PV panel")
            check_profile(c, a11, g, zl, "zonalized PV", "equiv. lat.")
            check_profile(c, a11, g, 1e4 * pv.mean(axis=1), "zonal-mean PV", "mean", 1e4 * pv)
            check_profile(c, a21, g, np.asarray(s.falwa, float).mean(axis=1), "FAWA")
            maps = (a12, a22)
        else:
            a1, a2, a3 = maps = ax[:3]
            dwn = bt.diagnostics.dominant_wavenumber_wavelet(s.v, g)
            flat = float(np.ptp(s.pv)) <= 1e-5 * np.max(np.abs(pv))
            e = check_map(c, log, a1, "contourf", g, v, "v map", center)
            check_filled(c, e, v, "v map", None, o.get("v_max"))
            el = check_map(c, log, a1, "contour", g, dwn, "dominant wavenumber contours", center, optional=bool(np.ptp(dwn) == 0))
            if el is not None and dwn.min() < 9.5:
                lv = np.asarray(el[4].levels, float)
                inside = [k for k in range(1, 11) if dwn.min() + 1e-3 < k < dwn.max() - 1e-3]
                c.check(set(inside) <= set(lv.tolist()), f"contours of the dominant wavenumber at {lv}, field from {dwn.min()} to {dwn.max()}")
            e = check_map(c, log, a2, "contourf", g, s.v_envelope_hilbert, "envelope map", center)
            check_filled(c, e, s.v_envelope_hilbert, "envelope map", o.get("rwp_cmap", "YlOrRd"), covers="above" if "rwp_max" not in o else False)
            el = check_map(c, log, a2, "contour", g, psi, "streamfunction contours", center, optional=float(np.ptp(s.streamfunction)) == 0)
            if kind == "eddies":
                check_lines(c, el, psi, "streamfunction contours")
            ffalwa = bt.diagnostics.filter_by_wavenumber(s.falwa, 2 * dwn)
            e3 = check_map(c, log, a3, "contourf", g, ffalwa, "filtered FALWA map", center)
            check_filled(c, e3, ffalwa, "filtered FALWA map", o.get("rwp_cmap", "YlOrRd"), covers="above" if "rwp_max" not in o else False)
            el = check_map(c, log, a3, "contour", g, pv, "PV contours", center, optional=flat)
            if not flat:
                check_lines(c, el, pv, "PV contours")
            if e is not None and e3 is not None:
                c.check(np.allclose(e[4].levels, e3[4].levels), "envelope and filtered FALWA share their levels")
                if "rwp_max" in o:
                    c.close(np.max(e[4].levels), o["rwp_max"], "rwp_max override", rtol=1e-6)
            ax = maps
        for a in ax[:4]:
            check_lat_axis(c, a, hemi, which)
        _titles(c, maps, s)
        check_titles(c, ax, which)
        c.check("figsize" not in o or np.allclose(fig.get_size_inches(), o["figsize"]), f"figure size {fig.get_size_inches()}")
        c.check(digest([np.asarray(getattr(s, k)) for k in ("pv", "u", "v")]) == before, "state is not changed by the plot")
        c.event("figures")
        if c.rng.random() < .35: # the shortcut draws the same
            with recorder() as log2:
                ok, out = c.works(lambda: getattr(s.plot, which)(**o), f"State.plot.{which}")
            if ok:
                c.check(out is None, "shortcut returns nothing")
                c.equal([(e[1], digest(e[2][:4])) for e in log2], [(e[1], digest(e[2][:4])) for e in log], "shortcut draws the same")
                c.check(np.allclose([a.get_ylim() for a in plt.gcf().axes[:3]], [a.get_ylim() for a in fig.axes[:3]]), "latitude axes of the shortcut")
                c.equal([[t.get_text() for t in a.get_xticklabels()] for a in plt.gcf().axes[:4]], [[t.get_text() for t in a.get_xticklabels()] for a in fig.axes[:4]], "longitude labels of the shortcut")
                c.event("shortcuts")
    finally:
        plt.close("all")


def waveguide_plots(c):
    w, s, kind = _state(c)
    g = w.grid
    o = _options(c, g, center=False)
    o.pop("figsize", None)
    ks = np.asarray(s.stationary_wavenumber)
    kw = pick(c.rng, [None, 4, 5., [3, 5], (2, 4.5, 6), np.array([3, 6]), iter([4, 6]), [int(c.rng.integers(1, 9))], []])
    labels = [] if kw is None else ([kw] if isinstance(kw, (int, float)) else ([4, 6] if hasattr(kw, "__next__") else list(kw)))
    kws = [] if kw is None else ([kw] if isinstance(kw, (int, float)) else ([4, 6] if hasattr(kw, "__next__") else [float(k) for k in kw]))
    if kw is not None:
        o["k_waveguides"] = kw
    bounds = (-5, 15)
    if c.rng.random() < .5:
        bounds = pick(c.rng, [(-10, 10), (-3, 8), (-20, 30), (-7.5, 12.5), (-2, 25), (-13, 4), (-1, 100)])
        o["klim_bounds"] = bounds
    if c.rng.random() < .3:
        o["legend_loc"] = "upper left"
    c.note(kws=[float(k) for k in kws], options={k: str(v) for k, v in o.items() if k != "k_waveguides"})
    plt.close("all")
    try:
        ok, fig = c.works(lambda: bt.plot.waveguides(s, **o), "plot.waveguides")
        if not ok:
            return
        a1, a2 = fig.axes[:2]
        check_profile(c, a1, g, np.mean(np.asarray(s.u, float), axis=1), "zonal-mean zonal wind", field=s.u)
        with np.errstate(all="ignore"):
            check_profile(c, a2, g, ks.real - ks.imag, "stationary wavenumber")
        check_titles(c, (a1, a2), "waveguides")
        if not o.get("legend_loc"):
            c.check(a2.get_legend() is None, "legend without a position")
        elif kws:
            leg = a2.get_legend()
            if c.check(leg is not None, f"no legend at {o['legend_loc']}"):
                got = [t.get_text() for t in leg.get_texts()]
                c.check(got and set(got) <= {f"k={k}" for k in list(labels)}, f"legend {got} of wavenumbers {labels}")
                c.event("legends")
        for k in kws:
            want = sorted(tuple(float(z) for z in p) for p in s.extract_ks_waveguides(k))
            lines = [l for l in a2.lines if l.get_label() == f"k={k}" or (len(np.unique(l.get_xdata())) == 1 and len(l.get_xdata()) > 2 and float(l.get_xdata()[0]) == k)]
            if want and c.check(len(lines) >= 1, f"line of wavenumber {k}"):
                y = np.asarray(lines[0].get_ydata(), float)
                c.check(bool(np.all(np.asarray(lines[0].get_xdata(), float) == k)), f"wavenumber of the line {k}")
                segs = [seg for seg in np.split(y, np.flatnonzero(np.isnan(y))) if np.isfinite(seg).sum() > 0]
                got = sorted(tuple(z for z in seg if np.isfinite(z)) for seg in segs)
                c.check(len(got) == len(want) and all(len(a) == 2 and np.allclose(sorted(a), sorted(b), atol=1e-6) for a, b in zip(got, want)), f"waveguides of wavenumber {k}: drawn {got}, expected {want}")
                c.event("waveguides", len(want))
        for a in (a1, a2):
            check_lat_axis(c, a, o.get("hemisphere", "both"), "waveguides")
        lo, hi = a2.get_xlim()
        ticks = np.asarray(a2.get_xticks(), float)
        if lo < hi and kind != "constant":
            c.check(lo >= bounds[0] - 1e-9 and hi <= bounds[1] + 1e-9, f"wavenumber axis {(lo, hi)} within {bounds}")
        c.check(bool(np.all(ticks == np.rint(ticks))), f"wavenumber ticks are integers: {ticks}")
        if lo < -.01 and hi > .01:
            c.check(0. in ticks, f"0 is ticked: {ticks} on {(lo, hi)}")
            c.event("axes with 0")
        c.event("figures")
        if c.rng.random() < .5:
            if hasattr(kw, "__next__"):
                o["k_waveguides"] = iter([4, 6])
            ok, out = c.works(lambda: s.plot.waveguides(**o), "State.plot.waveguides")
            if ok:
                c.check(out is None, "shortcut returns nothing")
                new = plt.gcf()
                c.check(new is not fig, "shortcut draws a figure of its own")
                seen = [([(l.get_label() if not l.get_label().startswith("_") else "", digest([np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)])) for l in a.lines],
                         [float(x) for x in (*a.get_xlim(), *a.get_ylim(), *a.get_xticks())], a.get_legend() is None) for f_ in (fig, new) for a in f_.axes]
                c.equal(seen[len(seen) // 2:], seen[:len(seen) // 2], "shortcut draws the same")
                c.event("shortcuts")
    finally:
        plt.close("all")


def helpers(c):
    rng = c.rng
    n = int(pick(rng, NLON_ALL + [8, 10, 14, 22, 144, 360]))
    lon, lat = 360. / n * np.arange(n), np.linspace(90, -90, n // 2 + 1)
    lon2, lat2 = np.meshgrid(lon, lat)
    d = 360. / n
    # roll
    center = pick(rng, [0, 180, -180, 360, 720.5, 359.99, float(rng.uniform(-720, 720)), float(lon[int(rng.integers(n))]), float(lon[int(rng.integers(n))] + d / 2 * .99)])
    f = rng.normal(size=lon2.shape)
    if rng.random() < .3:
        f = rng.integers(0, 1000, size=lon2.shape)
    c.note(nlon=n, center=center)
    roll, conf = bt.plot.roll_lon(lon, center)
    out = roll(f)
    rlon = roll(lon2)
    k = (rlon[0] - center + 180) % 360 - 180
    c.check(abs(k[n // 2]) <= d / 2 + 1e-6, f"meridian {rlon[0, n // 2]} at the centre, requested {center}")
    i = np.rint(rlon / d).astype(int) % n
    c.check(np.array_equal(out, f[np.arange(f.shape[0])[:, None], i]), "rolled field and rolled longitudes belong together")
    c.check(np.allclose(np.diff(rlon[0]) % 360, d), "rolled longitudes increase")
    fig, ax = plt.subplots()
    try:
        conf(ax)
        ticks = np.asarray(ax.get_xticks(), float)
        for x, t in zip(ticks, ax.get_xticklabels()):
            val = float(t.get_text().replace("°", "").replace("−", "-"))
            want = rlon[0, 0] + x
            c.check(abs((val - want + 180) % 360 - 180) <= .51, f"label {val} at x={x}, which shows longitude {want % 360}")
        c.check(len(ticks) >= 4, "ticks")
        bt.plot.configure_lon_x(ax)
        c.check(all(abs((float(t.get_text().replace("°", "")) - x + 180) % 360 - 180) <= .51 for x, t in zip(ax.get_xticks(), ax.get_xticklabels())), "labels without offset")
        h = pick(rng, ["N", "S", "both", None, "x"])
        bt.plot.configure_lat_y(ax, h)
        check_lat_axis(c, ax, h, "configure_lat_y")
    finally:
        plt.close(fig)
    # vectors
    ny = pick(rng, [1, 2, 5, 13, 21, int(rng.integers(1, 60)), 1000])
    u, v = rng.normal(size=(2, *lon2.shape))
    x, y, uu, vv = bt.plot.reduce_vectors(lon2, lat2, u, v, ny)
    c.note(ny=int(ny))
    c.check(x.shape == y.shape == uu.shape == vv.shape and x.size > 0, "shapes of the thinned vectors")
    jj, ii = np.rint((90 - y) / (180 / (len(lat) - 1))).astype(int), np.rint(x / d).astype(int)
    c.check(np.array_equal(uu, u[jj, ii]) and np.array_equal(vv, v[jj, ii]), "thinned vectors stay at their places")
    rows = x.shape[0]
    c.check(min(ny, len(lat)) - 1 <= rows <= 2 * ny + 1, f"{rows} of {len(lat)} rows kept, requested {ny}")
    if len(set(y[:, 0])) > 2:
        c.check(np.ptp(np.diff(jj[:, 0])) == 0 and (ii.shape[1] < 3 or np.ptp(np.diff(ii[0])) == 0), "regular thinning")
        if ii.shape[1] > 1:
            c.check(abs(jj[1, 0] - jj[0, 0]) == abs(ii[0, 1] - ii[0, 0]), "same stride in both dimensions")
    # levels
    nl = int(rng.integers(2, 24))
    z = pick(rng, [rng.normal(size=(5, 7)), -abs(rng.normal(size=9)), np.zeros((3, 3)), rng.integers(-9, 3, 12), np.float32(rng.normal(size=4)), np.array([3.5]), np.array([3, -128], np.int8), rng.integers(0, 200, (3, 4)).astype(np.uint8), np.array([-32768], np.int16), np.array([[True, False]])])
    lv = np.asarray(bt.plot.symmetric_levels(z, nl))
    m = float(np.max(np.abs(np.asarray(z, float))))
    if m > 0:
        c.equal(lv.size, nl, "number of levels")
        c.close(lv, np.linspace(-m, m, nl), "levels", rtol=1e-6)
    c.check(np.allclose(lv, -lv[::-1], atol=1e-6 * max(m, 1)) and bool(np.all(np.diff(lv) > 0)), f"levels {lv} are symmetric and increase")
    ext = float(pick(rng, [1e-5, 2., 77.]))
    c.close(bt.plot.symmetric_levels(z, nl, ext=ext), np.linspace(-ext, ext, nl), "levels with override", rtol=1e-6)
    c.close(bt.plot.symmetric_levels(z), np.linspace(-m, m, 10) if m > 0 else lv, "10 levels by default", rtol=1e-6)
    c.event("helper cases")


def hovmoeller(c):
    w = world(c, NLON_SMALL)
    g = w.grid
    n = int(pick(c.rng, [1, 2, 3, 5, g.nlat, g.nlon]))
    tkind = pick(c.rng, ["s", "datetime", "irregular", "unordered", "repeated", "decreasing", "unordered datetime", "repeated datetime"])
    t0 = dt.datetime(2001, 12, 31, 18)
    hours = {"s": lambda k: k, "irregular": lambda k: k ** 2, "unordered": lambda k: int(c.rng.integers(-5, 20)), "repeated": lambda k: k // 2, "decreasing": lambda k: -k}
    ts = [6 * hours["s" if tkind == "datetime" else tkind.replace(" datetime", "")](k) for k in range(n)]
    ts = [t0 + dt.timedelta(hours=h) if "datetime" in tkind else h * 3600. for h in ts]
    states = [bt.State.from_vorticity(g, t, 1e-5 * c.rng.normal(size=g.shape)) for t in ts]
    kind = pick(c.rng, ["zonal", "meridional"])
    form = pick(c.rng, [list, tuple, bt.StateList])
    c.note(n=n, times=tkind, profile=kind)
    row = int(c.rng.integers(g.nlat)); col = int(c.rng.integers(g.nlon))
    f = (lambda s: np.asarray(s.v)[row]) if kind == "zonal" else (lambda s: np.asarray(s.u)[:, col])
    calls = []
    def logged(s):
        calls.append(s)
        return f(s)
    x, y, z = bt.plot.hovmoellerify(form(states), logged)
    c.check(len(calls) == n and all(a is b for a, b in zip(calls, states)), "function is called once per state, in order")
    prof = np.stack([f(s) for s in states])
    tax, oax = (y, x) if kind == "zonal" else (x, y)
    c.check(len(tax) == n and all(a == b for a, b in zip(tax, ts)), "time axis")
    c.check(np.array_equal(oax, g.lon if kind == "zonal" else g.lat), "space axis")
    c.equal(np.shape(z), (len(y), len(x)), "shape of the field")
    for k in range(n):
        c.check(np.array_equal(z[k] if kind == "zonal" else z[:, k], prof[k]), "profile of every state at its time")
    c.raises(lambda: bt.plot.hovmoellerify([], f), "no states")
    c.raises(lambda: bt.plot.hovmoellerify(states, lambda s: np.zeros(g.nlat + 1 + (g.nlat + 1 == g.nlon))), "profile of other length")
    c.event("hovmoeller cases")


QUICK_SCALE = 4
CASES = [(presets, 26, 500), (waveguide_plots, 14, 250), (helpers, 50, 2000), (hovmoeller, 25, 800)]
REQUIRED_EVENTS = {"filled maps": 30, "contour maps": 20, "legends": 2, "figures": 20, "maps": 40, "vectors": 500, "profiles": 40, "shortcuts": 2, "helper cases": 30, "hovmoeller cases": 15, "axes with 0": 3, "waveguides": 1}
