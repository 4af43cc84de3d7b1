"""Equal content, different objects: the result of a function must depend on the values of its arrays only, not on
memory layout, writability, number type or on what the same buffer contained in an earlier call."""
import numpy as np
from .gen import pick


def _flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in _flat(y)]
    return [np.asarray(x)]


def _fortran(a):
    return np.asfortranarray(a)

def _strided(a):
    big = np.full(tuple(2 * n for n in a.shape), 7, dtype=a.dtype)
    s = tuple(slice(None, None, 2) for _ in a.shape)
    big[s] = a
    return big[s]

def _reversed(a):
    s = tuple(slice(None, None, -1) for _ in a.shape)
    return a[s].copy()[s]

def _readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a

def _transposed(a):
    return a.T.copy().T

def _broadcast(a):
    """Rows that repeat are stored once."""
    if a.ndim == 2 and np.all(a == a[:, :1]):
        return np.broadcast_to(a[:, :1].copy(), a.shape)
    return a.copy()


LAYOUTS = {"fortran": _fortran, "strided": _strided, "reversed": _reversed, "readonly": _readonly,
           "transposed": _transposed, "broadcast": _broadcast}


def representations(c, f, args, msg, rtol=1e-5, kinds=None, n=3, levels=40., floor=0.):
    """f(*args) for several representations of args (float64 arrays); `kinds` restricts the representations.

    Results may differ by rtol * (their magnitude + floor * magnitude of the first argument); the latter is for results
    that can cancel."""
    kinds = list(kinds) if kinds else ["fortran", "strided", "reversed", "readonly", "transposed", "broadcast", "reused",
                                       "recycled", "single", "integer", "mixed", "small integer", "unsigned integer"]
    chosen = [pick(c.rng, kinds) for _ in range(n)]
    c.note(representations=chosen)
    args = [np.array(a, dtype=float) for a in args]
    for how in chosen:
        content = args
        if how == "single":
            content = [a.astype(np.float32).astype(float) for a in args]
        elif how == "integer":
            content = [np.round(a * (levels / max(np.max(np.abs(a)), 1e-300))) for a in args]
        elif how == "small integer":
            content = [np.round(a * (120. / max(np.max(np.abs(a)), 1e-300))) for a in args]
        elif how == "unsigned integer":
            content = [np.round((a - np.min(a)) * (250. / max(np.max(a) - np.min(a), 1e-300))) for a in args]
        base = _flat(f(*[a.copy() for a in content]))
        if how == "reused":
            bufs = [np.ascontiguousarray(a[::-1]) * -.5 for a in content]
            f(*bufs)
            for b, a in zip(bufs, content):
                b[...] = a
            got = f(*bufs)
        elif how == "recycled":
            for k in (.3, -2.):
                tmp = [a * k for a in content]
                f(*tmp)
                del tmp
            tmp = [a * 1. for a in content]
            got = f(*tmp)
        elif how == "single":
            got = f(*[a.astype(np.float32) for a in content])
        elif how == "integer":
            got = f(*[a.astype(int) for a in content])
        elif how == "small integer":
            got = f(*[a.astype(np.int8) for a in content])
        elif how == "unsigned integer":
            got = f(*[a.astype(pick(c.rng, [np.uint8, np.uint16])) for a in content])
        elif how == "mixed":
            got = f(*[LAYOUTS[pick(c.rng, list(LAYOUTS))](a) for a in content])
        else:
            got = f(*[LAYOUTS[how](a) for a in content])
        got = _flat(got)
        c.event("representations compared")
        if not c.equal(len(got), len(base), f"{msg}: number of results with {how} input"):
            continue
        for k, (x, y) in enumerate(zip(got, base)):
            fin = np.abs(y[np.isfinite(y)]) if y.size else y
            s = float(np.max(fin)) if np.size(fin) else 0.
            s += floor * float(np.max(np.abs(content[0]), initial=0.))
            c.close(x, y, f"{msg}: result {k} with {how} input equals that of a fresh double precision array", atol=rtol * s, nonfinite=True)
