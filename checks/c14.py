"""C14: state addition."""
import datetime as dt
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from checks.c12 import build, HOW, scales

RULE = "a case is a planet, two flows, the way of adding and the form of the right operand; expectation by adding coefficients in float64"
TOL = 4e-5


def _compare(c, s, w, c_vo, time, q, msg):
    ref = w.ref
    uw, pw = q * ref.r, q * ref.r ** 2
    u, v = ref.wind(c_vo)
    c.check(s.grid is w.grid, f"{msg}: grid of the left operand")
    c.check(s.time == time and type(s.time) is type(time), f"{msg}: time of the left operand")
    for name, want, scale in (("vorticity", ref.synth(c_vo), q), ("pv", ref.synth(c_vo + ref.c_fcor()), q), ("u", u, uw), ("v", v, uw), ("streamfunction", ref.synth(ref.inv_laplace(c_vo)), pw)):
        c.close(getattr(s, name), want, f"{msg}: {name}", atol=TOL * scale)


def sums(c):
    w = world(c, NLON_SMALL + [48])
    g, ref = w.grid, w.ref
    ca, cb = flow(c, w, slope=.8), flow(c, w, slope=.8, amplitude=vort_scale(w.ref) * float(pick(c.rng, [.1, 1., 3.])))
    hows = [h for h in HOW if h != "divergent wind"]
    ta, tb = times(c), times(c)
    ha, hb = pick(c.rng, hows), pick(c.rng, hows)
    a, b = build(g, ref, ha, ta, ca, c.rng), build(g, ref, hb, tb, cb, c.rng)
    c.note(a=ha, b=hb, ta=str(ta), tb=str(tb))
    q = sum(np.max(np.abs(ref.synth(x))) for x in (ca, cb)) + 2 * abs(ref.omega)
    if c.rng.random() < .5: # evaluation history must not matter
        for s in (a, b):
            for k in c.rng.permutation(["u", "pv", "streamfunction", "vorticity"])[:2]:
                getattr(s, str(k))
    ub, vb = ref.wind(cb)
    vob = ref.synth(cb)
    form = pick(c.rng, ["c", "f32", "ro", "fortran"])
    if form == "f32":
        ub, vb, vob = (x.astype(np.float32) for x in (ub, vb, vob))
    elif form == "ro":
        for x in (ub, vb, vob):
            x.flags.writeable = False
    elif form == "fortran":
        ub, vb, vob = (np.asfortranarray(x) for x in (ub, vb, vob))
    c.note(form=form)
    total = ca + cb
    _compare(c, a.add_wind(b), w, total, ta, q, "add_wind(state)")
    _compare(c, a.add_vorticity(b), w, total, ta, q, "add_vorticity(state)")
    _compare(c, a.add_wind((ub, vb)), w, total, ta, q, "add_wind((u, v))")
    _compare(c, a.add_wind([ub, vb]), w, total, ta, q, "add_wind([u, v])")
    _compare(c, a.add_vorticity(vob), w, total, ta, q, "add_vorticity(array)")
    _compare(c, b.add_wind(a), w, total, tb, q, "operands exchanged (wind)")
    _compare(c, b.add_vorticity(a), w, total, tb, q, "operands exchanged (vorticity)")
    _compare(c, a, w, ca, ta, q, "left operand afterwards")
    _compare(c, b, w, cb, tb, q, "right operand afterwards")
    c.event("sums", 7)


def chains(c):
    """Long sums, doubling, rest as the neutral element."""
    w = world(c, NLON_SMALL)
    g, ref = w.grid, w.ref
    n = int(c.rng.integers(2, 7))
    cs = [flow(c, w) for _ in range(n)]
    states = [build(g, ref, pick(c.rng, HOW[:4]), float(i), x, c.rng) for i, x in enumerate(cs)]
    q = sum(np.max(np.abs(ref.synth(x))) for x in cs) + 2 * abs(ref.omega) * n
    ways = [str(pick(c.rng, ["add_wind", "add_vorticity"])) for _ in range(n - 1)]
    c.note(n=n, ways=ways)
    s = states[0]
    for x, how in zip(states[1:], ways):
        s = getattr(s, how)(x)
    _compare(c, s, w, sum(cs), 0., q, f"sum of {n} states")
    rest = bt.init.motionless(g, 5)
    for how in ("add_wind", "add_vorticity"):
        _compare(c, getattr(states[1], how)(rest), w, cs[1], 1., q, f"{how} of rest")
        _compare(c, getattr(rest, how)(states[1]), w, cs[1], 5, q, f"{how} to rest")
        _compare(c, getattr(states[0], how)(states[0]), w, 2 * cs[0], 0., q, f"{how} of itself")
    neg = bt.State.from_vorticity(g, 0., -ref.synth(cs[0]))
    _compare(c, states[0].add_vorticity(neg), w, 0 * cs[0], 0., q, "opposite flow")
    _compare(c, states[0].add_wind(neg), w, 0 * cs[0], 0., q, "opposite flow")
    # only the rotational part of an added wind counts
    u, v = ref.wind(cs[1], ref.random(c.rng, 5, 1, 1., .2 * np.max(np.abs(ref.synth(cs[1])))))
    _compare(c, states[0].add_wind((u, v)), w, cs[0] + cs[1], 0., q, "wind with a divergent part")
    c.event("chains")


def rejects(c):
    w = world(c, NLON_SMALL)
    g = w.grid
    s = bt.init.solid_body_rotation(g)
    f = np.zeros(g.shape)
    bads = {
        "u rows": lambda: s.add_wind((f[1:], f)), "v rows": lambda: s.add_wind((f, f[1:])), "columns": lambda: s.add_wind((f[:, 1:], f[:, 1:])),
        "profile": lambda: s.add_wind((f[:, 0], f[:, 0])), "transposed": lambda: s.add_vorticity(f.T), "vorticity rows": lambda: s.add_vorticity(f[1:]),
        "vorticity columns": lambda: s.add_vorticity(f[:, :-1]), "vorticity profile": lambda: s.add_vorticity(f[0]), "column": lambda: s.add_vorticity(f[:, :1]),
        "3d": lambda: s.add_vorticity(f[None]), "row": lambda: s.add_wind((f[:1], f[:1])),
    }
    name = pick(c.rng, list(bads)); c.note(bad=name)
    c.raises(bads[name], f"addition refused: {name}")
    # nothing is broadcast
    h = pick(c.rng, [f[:, :1], f[:1], f[:1, :1], f[0, :], np.zeros(()), f[None], f[:, :, None], f[:, :-1], f[:-1], f.T, np.zeros(g.nlat), f[:0], 0., f.ravel()])
    c.note(shape=np.shape(h))
    for msg, call in {
        "u": lambda: s.add_wind((h, f)), "v": lambda: s.add_wind((f, h)), "both": lambda: s.add_wind((h, h)), "list": lambda: s.add_wind([f, h]),
        "vorticity": lambda: s.add_vorticity(h)
    }.items():
        c.raises(call, f"{msg} of shape {np.shape(h)}")
    kw = dict(resolution=360. / g.nlon, rsphere=w.ref.r, omega=w.ref.omega, ntrunc=w.ntrunc)
    change = pick(c.rng, ["resolution", "radius", "rotation", "rotation sense", "truncation"])
    if change == "resolution":
        kw.update(resolution=360. / (g.nlon + 4), ntrunc=None)
    elif change == "radius":
        kw["rsphere"] = w.ref.r * float(pick(c.rng, [2, .5, 1.01]))
    elif change == "truncation":
        kw["ntrunc"] = w.ntrunc - 1
    elif change == "rotation" or w.ref.omega == 0:
        kw["omega"] = w.ref.omega * float(pick(c.rng, [2, .5, 1.01])) if w.ref.omega else 1e-4
    else:
        kw["omega"] = -w.ref.omega
    c.note(other=change)
    other = bt.init.motionless(bt.Grid(**kw))
    c.raises(lambda: s.add_wind(other), "state on another grid (wind)")
    c.raises(lambda: s.add_vorticity(other), "state on another grid (vorticity)")
    c.event("refusals")


def array_kinds(c):
    w = world(c, NLON_SMALL)
    g = w.grid
    s = bt.State.from_vorticity(g, 5., w.ref.synth(flow(c, w)))
    f, h = any_field(c, g.shape, vort_scale(w.ref)), any_field(c, g.shape, vort_scale(w.ref))
    out = lambda x: (x.pv, x.u, x.v)
    kinds = ["fortran", "strided", "reversed", "readonly", "transposed", "broadcast", "reused", "recycled", "single", "mixed"]
    if c.rng.random() < .5:
        same_for_representations(c, lambda a: out(s.add_vorticity(a)), [f], "add_vorticity", rtol=2e-4, kinds=kinds)
    else:
        f, h = np.asarray(f, float) * g.rsphere, np.asarray(h, float) * g.rsphere
        seq = pick(c.rng, [tuple, list])
        same_for_representations(c, lambda a, b: out(s.add_wind(seq((a, b)))), [f, h], "add_wind", rtol=2e-4, kinds=kinds)
    c.event("array kinds")


CASES = [(array_kinds, 25, 600), (sums, 50, 1500), (chains, 30, 900), (rejects, 30, 200)]
REQUIRED_EVENTS = {"sums": 200, "chains": 20, "refusals": 20}
