"""Attaching observers to the public API of the library without changing it."""
import contextlib, functools


@contextlib.contextmanager
def watch(owner, name, post=None, pre=None):
    """While active, calls `post(args, kwargs, result)` after every call of owner.name, also internal ones.

    Observers are not called re-entrantly, so that an oracle may use the library itself."""
    static = owner.__dict__.get(name) if hasattr(owner, "__dict__") else None
    orig = getattr(owner, name, None)
    if orig is None or not callable(orig) or isinstance(static, (classmethod, staticmethod)):
        yield
        return
    busy = [False]
    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        if busy[0]:
            return orig(*args, **kwargs)
        token = None
        if pre is not None:
            busy[0] = True
            try:
                token = pre(args, kwargs)
            finally:
                busy[0] = False
        out = orig(*args, **kwargs)
        if post is not None:
            busy[0] = True
            try:
                post(args, kwargs, out) if pre is None else post(args, kwargs, out, token)
            finally:
                busy[0] = False
        return out
    setattr(owner, name, wrapper)
    try:
        yield
    finally:
        setattr(owner, name, orig)
