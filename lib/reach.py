"""Which lines of the code under test were executed while the oracles were watching (evidence of reach only)."""
import os, sys, types


class Reach:
    """Records every line of the package once (each location is switched off after its first hit)."""

    def __init__(self, src):
        self.src = os.path.join(os.path.realpath(src), "")
        self.hits = set()

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "reach")
        except ValueError:
            return
        def line(code, lineno):
            if os.path.realpath(code.co_filename).startswith(self.src):
                self.hits.add((os.path.basename(code.co_filename), lineno))
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def _function_lines(code, inside):
    out = set()
    if inside:
        out |= {l for _, _, l in code.co_lines() if l is not None and l != code.co_firstlineno}
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            # class bodies run at import
            out |= _function_lines(k, bool(k.co_flags & 0x2))
    return out


def summary(src, hits):
    """Lines of functions that were reached, of those that exist, for every module."""
    out = {}
    for name in sorted(os.listdir(src)):
        if not name.endswith(".py"):
            continue
        try:
            with open(os.path.join(src, name), encoding="utf-8") as f:
                lines = _function_lines(compile(f.read(), name, "exec"), False)
        except SyntaxError:
            continue
        seen = {l for n, l in hits if n == name} & lines
        if lines:
            out[name] = {"lines_reached": len(seen), "lines_in_functions": len(lines)}
    return out
