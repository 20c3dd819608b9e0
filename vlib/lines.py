"""
Which lines of the code under test did the workload execute? Every line fires
once per process (sys.monitoring), so that the cost does not matter. The
result goes into the evidence; no verdict depends on it.
"""
import os
import sys

TOOL = sys.monitoring.COVERAGE_ID
_seen = set()
_root = None


def start(root):
    """Watch the files below root in this process."""
    global _root
    _root = os.path.join(os.path.realpath(root), '')
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, 'verif')
    except ValueError:
        return
    mon.register_callback(TOOL, mon.events.LINE, _line)
    mon.set_events(TOOL, mon.events.LINE)


def _line(code, line):
    if code.co_filename.startswith(_root) and code.co_name != '<module>':
        _seen.add((code.co_filename[len(_root):], line))
    return sys.monitoring.DISABLE


def take():
    """Lines seen since the last call."""
    out = sorted(_seen)
    _seen.clear()
    return out


def executable(path):
    """Lines of the functions of a file."""
    with open(path) as fh:
        todo = [compile(fh.read(), path, 'exec')]
    out = set()
    while todo:
        c = todo.pop()
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                todo.append(k)
        if c.co_flags & 3 == 3:        # a function, no module or class
            out.update(ln for _, _, ln in c.co_lines()
                       if ln and ln != c.co_firstlineno)
    return out


def summary(root, seen):
    """Executed and executable lines of each file, as text."""
    root = os.path.join(os.path.realpath(root), '')
    out = {}
    for f in sorted({f for f, _ in seen}):
        try:
            ex = executable(root+f)
        except (OSError, SyntaxError):
            continue
        n = len(ex & {ln for g, ln in seen if g == f})
        out[f] = f'{n} of {len(ex)}'
    return out
