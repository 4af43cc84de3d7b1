"""C29: state collections."""
import copy, pickle, datetime as dt
import numpy as np, barotropic as bt
from lib.gen import *
from lib import monitor
from lib.core import digest
from checks.c12 import build, HOW

RULE = "a case is a collection (0 to 8 states, one possibly several times) with a sequence of operations on it; after every operation the collection is compared with a plain tuple of the same states (the model), and calls are recorded"


def _states(c, n=None, nlons=NLON_SMALL[:6]):
    w = world(c, nlons, truncate=.2)
    n = int(pick(c.rng, [0, 1, 1, 2, 3, 5, 8])) if n is None else n
    cs = [flow(c, w) for _ in range(n)]
    states = [build(w.grid, w.ref, pick(c.rng, HOW[:4]), float(k * 600), x, c.rng) for k, x in enumerate(cs)]
    if n > 2 and c.rng.random() < .4: # the same state twice
        states[-1] = states[0]
    c.note(n=n)
    return w, states, cs


def _is(c, lst, model, msg):
    c.check(isinstance(lst, bt.StateList), f"{msg}: type {type(lst).__name__}")
    if not c.equal(len(lst), len(model), f"{msg}: length"):
        return
    c.check(all(a is b for a, b in zip(lst, model)), f"{msg}: states or their order (iteration)")
    c.check(all(lst[i] is model[i] for i in range(len(model))), f"{msg}: index")
    c.check(all(lst[-i - 1] is model[-i - 1] for i in range(len(model))), f"{msg}: negative index")
    c.check(bool(lst) == bool(model), f"{msg}: truth value")
    c.event("comparisons with the model")


def sequence(c):
    w, states, _ = _states(c)
    model = tuple(states)
    kind = pick(c.rng, ["list", "tuple", "generator", "iter", "StateList", "map", "dict values", "deque"])
    c.note(source=kind)
    import collections
    src = list(states)
    it = {"list": lambda: src, "tuple": lambda: tuple(src), "generator": lambda: (s for s in src), "iter": lambda: iter(src), "StateList": lambda: bt.StateList(src),
          "map": lambda: map(lambda s: s, src), "dict values": lambda: dict(enumerate(src)).values(), "deque": lambda: collections.deque(src)}[kind]()
    lst = bt.StateList(it)
    _is(c, lst, model, f"made from {kind}")
    other = bt.init.motionless(w.grid, -1)
    ops = []
    for _ in range(int(c.rng.integers(3, 9))):
        op = pick(c.rng, ["mutate source", "in", "reversed", "add", "add list", "add iter", "radd", "iterate twice", "index()", "count()", "out of range", "setitem", "copy", "deepcopy", "pickle", "attr", "mutate result", "list()", "np index", "grid", "interleave", "self add"])
        ops.append(op)
        if op == "mutate source":
            if c.rng.random() < .5:
                src.append(other)
            else:
                src.clear()
        elif op == "in":
            c.check(all(s in lst for s in model) and other not in lst, "membership")
        elif op == "reversed":
            r = list(reversed(lst))
            c.check(len(r) == len(model) and all(a is b for a, b in zip(r, model[::-1])), "reversal")
        elif op in ("add", "add list", "add iter", "self add"):
            more = [other, bt.init.motionless(w.grid, 5)][:int(c.rng.integers(0, 3))]
            if op == "self add":
                new, more = lst + lst, list(model)
            else:
                new = lst + {"add": lambda: bt.StateList(more), "add list": lambda: list(more), "add iter": lambda: iter(list(more))}[op]()
            _is(c, new, (*model, *more), "concatenation")
        elif op == "radd":
            l2 = bt.StateList([other])
            _is(c, l2 + lst, (other, *model), "concatenation from the left")
        elif op == "iterate twice":
            c.check([id(s) for s in lst] == [id(s) for s in lst] == [id(s) for s in model], "iteration")
        elif op == "interleave":
            a, b = iter(lst), iter(lst)
            got = []
            for s in model:
                got.append(next(a) is s)
            for s in model:
                got.append(next(b) is s)
            c.check(all(got), "independent iterators")
        elif op == "index()" and model:
            k = int(c.rng.integers(len(model)))
            c.equal(lst.index(model[k]), model.index(model[k]), "index of a state")
        elif op == "count()" and model:
            c.equal(lst.count(model[0]), sum(s is model[0] for s in model), "count of a state")
            c.equal(lst.count(other), 0, "count of another state")
        elif op == "out of range":
            c.raises(lambda: lst[len(model)], "index out of range", IndexError)
            c.raises(lambda: lst[-len(model) - 1], "index out of range", IndexError)
        elif op == "setitem":
            def assign():
                lst[0] = other
            def delete():
                del lst[0]
            c.raises(assign, "assignment of a state")
            c.raises(delete, "deletion of a state")
            for m in ("append", "extend", "insert", "clear", "pop", "remove", "sort", "reverse"):
                if m in dir(type(lst)):
                    c.fail(f"collection has a mutating method {m}")
        elif op == "copy":
            _is(c, copy.copy(lst), model, "shallow copy")
        elif op in ("deepcopy", "pickle"):
            new = copy.deepcopy(lst) if op == "deepcopy" else pickle.loads(pickle.dumps(lst, protocol=int(c.rng.integers(2, 6))))
            c.check(isinstance(new, bt.StateList) and len(new) == len(model), f"{op}: type and length")
            for a, b in zip(new, model):
                c.check(a is not b and a.time == b.time and a.grid == b.grid, f"{op}: time and grid")
                c.check(np.array_equal(a.pv, b.pv) and np.array_equal(a.u, b.u), f"{op}: fields")
            c.event("deep copies")
        elif op == "attr":
            lst.pv, lst.time
        elif op == "mutate result" and model:
            t = lst.time
            try:
                t[0] = -999
            except (TypeError, ValueError):
                pass
            c.check(model[0].time != -999, "times of the states are their own")
            p = np.asarray(lst.pv)
            b = digest(np.asarray(model[0].pv))
            if p.flags.writeable:
                p[...] = 0
            c.check(digest(np.asarray(model[0].pv)) == b, "stacked array is not the memory of the states")
        elif op == "list()":
            x = list(lst)
            x.append(other); x.reverse()
        elif op == "np index" and model:
            k = int(c.rng.integers(len(model)))
            c.check(lst[np.int64(k)] is model[k], "numpy integer as index")
        elif op == "grid":
            c.check(lst.grid is None if not model else lst.grid == w.grid, "grid of the collection")
        _is(c, lst, model, f"after {op}")
        c.event("operations")
    c.note(ops=ops)


ATTRS = ["u", "v", "pv", "avo", "vorticity", "vo", "streamfunction", "energy", "enstrophy", "eddy_enstrophy", "time", "pv_spectral", "vorticity_spectral", "pv_flux_spectral", "grid"]


def broadcast(c):
    """Attributes and methods of the collection are those of its states."""
    w, states, _ = _states(c, int(pick(c.rng, [1, 1, 2, 3, 5])), [16, 18, 20, 24])
    lst = bt.StateList(states)
    names = [str(x) for x in c.rng.permutation(ATTRS[:-1] + ["pv_zonalized", "v_envelope_hilbert", "fawa"])[:6]]
    c.note(attrs=names)
    for name in names:
        got = getattr(lst, name)
        want = [np.asarray(getattr(s, name)) for s in states]
        c.check(isinstance(got, np.ndarray), f"{name} is stacked into an array, not {type(got).__name__}")
        c.equal(np.shape(got), (len(states), *want[0].shape), f"shape of {name}")
        c.check(all(np.array_equal(g, x) for g, x in zip(got, want)), f"values of {name} in order")
        c.event("attributes")
    # lists
    sts = list(states)
    p = lst.plot
    c.check(isinstance(p, list) and len(p) == len(states), "other values come as a list")
    for s, k in zip(states, range(len(states))):
        s.label = f"x{k}"
    c.equal(lst.label, [s.label for s in states], "attributes set on the states")
    if len(set(map(id, states))) > 1:
        for s, k in zip(states, range(len(states))):
            s.mixed = k if k % 2 else "text"
        c.equal(lst.mixed, [s.mixed for s in states], "mixed values come as a list")
    for s, k in zip(states, range(len(states))):
        s.friend = states[-1]
    fr = lst.friend
    _is(c, fr, [states[-1]] * len(states), "states come as a collection")
    # methods
    dv = 1e-3 * vort_scale(w.ref) * c.rng.normal(size=w.grid.shape)
    got = lst.add_vorticity(dv)
    c.check(isinstance(got, bt.StateList) and len(got) == len(states), "method that returns states gives a collection")
    for g, s in zip(got, states):
        c.check(np.array_equal(g.pv, s.add_vorticity(dv).pv) and g.time == s.time, "result of the method for every state")
    b = lst.as_hn2016(planet_radius=7.)
    c.check(isinstance(b, list) and len(b) == len(states), "other results come as a list")
    for x, s in zip(b, states):
        c.check(x.planet_radius == 7. and np.array_equal(np.asarray(x.pv_field)[::-1], np.asarray(s.pv)), "result of the method for every state")
    m = bt.BarotropicModel(bt.rhs.LinearRelaxation(1e-6, bt.init.motionless(w.grid).pv))
    dt_ = 60.
    times0 = [s.time for s in states]
    out = lst.run(m, dt=dt_, tend=max(times0) + 240., save_every=dt_)
    c.check(isinstance(out, tuple) and len(out) == 2, "result of run")
    last, allsteps = out
    c.check(isinstance(last, bt.StateList) and len(last) == len(states) and len(allsteps) == len(states), "run gives the last states and all outputs")
    for s, l, a in zip(states, last, allsteps):
        l2, a2 = m.run(s, dt=dt_, tend=max(times0) + 240., save_every=dt_)
        c.check(l.time == l2.time and np.array_equal(l.pv, l2.pv), "last state is that of the individual run")
        c.check([x.time for x in a] == [x.time for x in a2], "times of the individual run")
    unknown = pick(c.rng, ["nothere", "uu", "PV", "_nothing", "__nothing__", "states", "append"])
    c.raises(lambda: getattr(lst, unknown), f"unknown attribute {unknown}", AttributeError)
    c.check(not hasattr(lst, "nothere"), "hasattr of an unknown attribute")
    c.equal(getattr(lst, "nothere", 5), 5, "default of an unknown attribute")


def mapping(c):
    """map calls the function exactly once per state, in order, with the extra arguments."""
    w, states, _ = _states(c)
    lst = bt.StateList(states)
    args = tuple(int(x) for x in c.rng.integers(0, 9, int(c.rng.integers(0, 3))))
    kwargs = {k: float(c.rng.normal()) for k in ["alpha", "beta"][:int(c.rng.integers(0, 3))]}
    kind = pick(c.rng, ["float", "int", "bool", "np", "complex", "array", "0d", "int array", "state", "str", "none", "tuple", "mixed", "dict", "array+number", "state+None", "list", "rows", "numbers", "numbers"])
    c.note(returns=kind, args=args, kwargs=sorted(kwargs), generator=False)
    log = []
    n = len(states)
    def value(k, s):
        return {"float": lambda: k * 1.5, "int": lambda: k, "bool": lambda: k % 2 == 0, "np": lambda: np.float32(k), "complex": lambda: k * 1j, "array": lambda: s.u + k, "0d": lambda: np.array(k), "int array": lambda: np.arange(4) * k,
            "state": lambda: s, "str": lambda: f"s{k}", "none": lambda: None, "tuple": lambda: (k, s.time), "mixed": lambda: k if k % 2 else "x", "dict": lambda: {"k": k}, "array+number": lambda: s.u if k % 2 else k,
            "state+None": lambda: s if k % 2 else None, "list": lambda: [k, k], "rows": lambda: s.u[0],
            "numbers": lambda: kinds[k % len(kinds)](k) / div[k % len(div)]}[kind]()
    # numbers of several types
    kinds = [pick(c.rng, [int, float, np.float32, np.int8, np.float64, bool, complex, np.uint16, np.longdouble]) for _ in range(3)]
    div = [pick(c.rng, [1, 1, 4]) for _ in range(4)]
    made = []
    def f(s, *a, **kw):
        log.append((s, a, dict(kw)))
        made.append(value(len(log) - 1, s))
        return made[-1]
    res = lst.map(f, *args, **kwargs)
    c.equal(len(log), n, "number of calls of the function")
    c.check(all(l[0] is s for l, s in zip(log, states)), "order of the calls")
    c.check(all(l[1] == args and l[2] == kwargs for l in log), "extra arguments")
    c.event("callbacks", len(log))
    c.equal(len(res), n, "length of the result")
    arrays = kind in ("float", "int", "bool", "np", "complex", "array", "0d", "int array", "rows", "numbers")
    if n == 0:
        c.equal(len(list(res)), 0, "nothing for nothing")
    elif arrays:
        c.check(isinstance(res, np.ndarray) and res.shape == (n, *np.shape(made[0])), f"{kind} results are stacked into an array, not {type(res).__name__}")
        c.check(all(np.array_equal(a, b) for a, b in zip(res, made)), f"values of {kind} results in order")
    elif kind == "state":
        _is(c, res, tuple(states), "state results")
    elif kind in ("mixed", "array+number", "state+None") and n == 1:
        c.check(res[0] is made[0] or np.array_equal(res[0], made[0]), "value")
    else:
        c.check(isinstance(res, list), f"{kind} results come as a list, not {type(res).__name__}")
        c.check(all(a is b for a, b in zip(res, made)), f"values of {kind} results in order")
    # exceptions of the function are not swallowed and end the mapping
    if n > 1:
        k = int(c.rng.integers(n))
        seen = []
        def bad(s):
            seen.append(s)
            if len(seen) == k + 1:
                raise KeyError("stop")
            return 1
        c.raises(lambda: lst.map(bad), "exception of the function", KeyError)
        c.equal(len(seen), k + 1, "calls until the exception")
    _is(c, lst, tuple(states), "after mapping")
    # a method of the states gets the arguments, too
    calls = []
    with monitor.watch(bt.State, "add_vorticity", lambda a, kw, out: calls.append((a[0], a[1:], kw))):
        z = np.zeros(w.grid.shape)
        lst.add_vorticity(z)
    c.check([id(x[0]) for x in calls] == [id(s) for s in states] and all(x[1] and x[1][0] is z for x in calls), "method calls of the states, in order")
    c.event("method calls", len(calls))


def refusals(c):
    w, states, _ = _states(c, int(pick(c.rng, [0, 1, 2, 4])))
    bad = pick(c.rng, [None, 1., "u", np.zeros(w.grid.shape), w.grid, [], bt.State, {}])
    pos = int(c.rng.integers(len(states) + 1))
    c.note(bad=type(bad).__name__, pos=pos)
    items = [*states[:pos], bad, *states[pos:]]
    c.raises(lambda: bt.StateList(items), "collection with a non-state", TypeError)
    c.raises(lambda: bt.StateList(iter(items)), "collection with a non-state (iterator)", TypeError)
    c.raises(lambda: bt.StateList(states) + [bad], "concatenation with a non-state", TypeError)
    other = bt.init.motionless(bt.Grid(360. / (w.grid.nlon + 4)))
    if states:
        c.raises(lambda: bt.StateList([*states[:pos], other, *states[pos:]]), "states on different grids")
        c.raises(lambda: bt.StateList(states) + [other], "concatenation with another grid")
    c.event("refusals")


CASES = [(sequence, 50, 2000), (broadcast, 15, 500), (mapping, 50, 1500), (refusals, 24, 200)]
REQUIRED_EVENTS = {"operations": 100, "comparisons with the model": 200, "attributes": 50, "callbacks": 60, "method calls": 50, "refusals": 20, "deep copies": 10}
