"""Worker of C37: uses the library in a process of its own, with packages missing and unusual settings.

    python lib/fresh.py HERE SRC JOB OUT        (JOB, OUT: pickles)
"""
import os, pickle, re, sys, threading, traceback


class Missing:
    """Makes packages look as if they were not installed."""

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def process_settings():
    """Settings of the process that belong to its user."""
    import gc, locale, random, signal, warnings
    import numpy as np
    out = {"numpy's error handling": str(np.geterr()), "numpy's print options": str(np.get_printoptions()), "numpy's random state": str(np.random.get_state()[1].tolist()),
           "Python's random state": str(hash(random.getstate())), "warning filters": str(warnings.filters), "environment": str(sorted(os.environ.items())),
           "locale": str(locale.setlocale(locale.LC_ALL)), "recursion limit": str(sys.getrecursionlimit()), "module path": str(sys.path), "threads": str(threading.active_count()),
           "signals": str([(s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)]), "garbage collection": str((gc.isenabled(), gc.get_threshold())),
           "excepthook": str(sys.excepthook), "display hook": str(sys.displayhook), "standard output": str(id(sys.stdout)), "umask": ""}
    u = os.umask(0o22); os.umask(u)
    out["umask"] = str(u)
    try:
        out["files"] = str(sorted(os.listdir(".")))
    except OSError:
        out["files"] = "no directory"
    if "matplotlib" in sys.modules:
        import matplotlib
        out["matplotlib's settings"] = str(sorted((k, str(v)) for k, v in matplotlib.rcParams.items()))
    if "xarray" in sys.modules:
        import xarray
        out["xarray's options"] = str(sorted(xarray.get_options().items(), key=lambda x: x[0]))
    if "matplotlib.pyplot" in sys.modules:
        import matplotlib.pyplot as plt
        out["figures"] = str(plt.get_fignums())
    return out


def observable(x):
    """A result without objects of the library or of optional packages."""
    from checks.c13 import states
    x = states(x)
    if type(x).__module__.startswith("matplotlib"):
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        import numpy as np
        x.set_dpi(40)
        canvas = FigureCanvasAgg(x)
        canvas.draw()
        return {"picture": np.asarray(canvas.buffer_rgba()).copy()}
    if isinstance(x, dict):
        return {k: observable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [observable(v) for v in x]
    return x


def outcome(f):
    try:
        return True, observable(f())
    except Exception as e:
        return False, [[t.__name__ for t in type(e).__mro__], str(e)[:300], traceback.format_exc()[-600:]]
    finally:
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            plt.close("all")


def ops():
    """All operations by name, on an environment of C13."""
    import numpy as np, barotropic as bt
    from checks.c13 import OPS, PLOTS
    table = {**OPS, **PLOTS}
    table["wavelet"] = lambda e: bt.diagnostics.dominant_wavenumber_wavelet(e.s.v, e.grid)
    table["hovmoeller"] = lambda e: [bt.plot.hovmoellerify([e.s, e.s2], lambda s: np.asarray(s.u).mean(axis=k)) for k in (0, 1)]
    table["text"] = lambda e: [re.sub("0x[0-9a-f]+", "0x", repr(x)) for x in (e.s, e.sl, e.rhs_r, e.rhs_o, e.rhs_m, e.rhs_r + e.rhs_o, e.model_bg)]
    table["texts of grids"] = lambda e: [repr(e.grid), str(e.region)[:40]]
    table["help"] = lambda e: [callable(getattr(bt, n)) or type(getattr(bt, n)).__name__ for n in bt.__all__]
    table["sums"] = lambda e: ((e.rhs_r + e.rhs_o) * e.rhs_m + e.rhs_m)(e.s)
    table["groups"] = lambda e: [len({e.grid, bt.Grid(360. / e.grid.nlon, rsphere=e.grid.rsphere, omega=e.grid.omega), e.s.grid, e.s2.grid})]
    return table


def main(here, src, job, out):
    with open(job, "rb") as f:
        job = pickle.load(f)
    facts = {}
    sys.meta_path.insert(0, Missing(job["missing"]))
    sys.path[:0] = [src, here]
    result = {"facts": facts, "outcomes": [], "pickled": None}

    def work():
        import numpy, scipy, scipy.special, scipy.interpolate, scipy.integrate, scipy.signal, spharm
        for name in ("matplotlib.pyplot", "matplotlib.ticker"):
            try:
                __import__(name)
            except ImportError:
                pass
        before = process_settings()
        import io, contextlib
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            before["standard output"] = str(id(sys.stdout))
            import barotropic as bt
            after = process_settings()
        facts["file"] = bt.__file__
        facts["changed by the import"] = [f"{k}: {before[k]} -> {after[k]}"[:300] for k in before if k in after and before[k] != after[k]]
        facts["said by the import"] = said.getvalue()
        ns = {}
        exec("from barotropic import *", ns)
        facts["public names"] = sorted(k for k in ns if not k.startswith("__"))
        from checks.c13 import Env
        table = ops()
        e = Env(job["seed"], job["par"])

        def rest():
            for name in job["ops"]:
                result["outcomes"].append((name, *outcome(lambda: table[name](e))))
            if job["pickle"] is not None:
                result["pickled"] = outcome(lambda: unpickled(job["pickle"], e))
        if job["where"] == "thread":
            t = threading.Thread(target=rest); t.start(); t.join()
        elif job["where"] == "fork":
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    rest()
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(result, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            result.update(pickle.loads(data))
        else:
            rest()

    if job["where"] == "all in a thread":
        t = threading.Thread(target=work); t.start(); t.join()
    else:
        work()
    with open(out, "wb") as f:
        pickle.dump(result, f)


def to_pickle(e):
    import barotropic as bt
    kept = bt.State(e.grid, e.t0, pv=e.pv) # some fields known already
    kept.u, kept.energy, kept.falwa
    return pickle.dumps([e.grid, kept, e.sl])


def unpickled(data, e):
    """Objects of another process, together with those of this one."""
    grid, s, sl = pickle.loads(data)
    return {"grids equal": grid == e.grid and e.grid == grid, "hashes equal": hash(grid) == hash(e.grid), "found": {e.grid: 1}.get(grid) == 1 and {grid: 1}.get(e.grid) == 1,
            "in the state": s.grid == e.grid and sl[0].grid == e.grid and hash(s.grid) == hash(e.grid),
            "fields": [s.pv, s.u, s.v, s.energy, s.falwa, s.enstrophy, s.vorticity], "list": [x.pv for x in sl], "length": len(sl), "time": s.time,
            "term": e.rhs_o(s), "step": e.model.euler(s, e.step).pv, "run": e.model.run(s, e.step, e.t0 + 2 * e.step)[0].pv}


if __name__ == "__main__":
    main(*sys.argv[1:])
