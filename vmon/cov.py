"""Which lines of the library a run executed (evidence only: it takes no part in any verdict)."""
import os
import sys
import types


class Lines:
    """records the first execution of every line below `root` (sys.monitoring: each location reports once)"""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.hit = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'vmon')
        except ValueError:
            return

        def line(code, number):
            if code.co_filename.startswith(self.root):
                self.hit.add((code.co_filename[len(self.root):], number))
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def executable(path):
    """line numbers inside functions: what only runs when the library is used"""
    with open(path) as f:
        code = compile(f.read(), path, 'exec')
    out = set()

    def visit(c, inside):
        if inside:
            out.update(n for _, _, n in c.co_lines() if n and n != c.co_firstlineno)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                visit(k, inside or bool(k.co_flags & 2))     # CO_NEWLOCALS: a function, not a class body
    visit(code, False)
    return out


def table(root, hit):
    rows = {}
    for d, _, files in os.walk(root):
        for f in sorted(files):
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            if f.endswith('.py') and not f.endswith('_test.py') and '_test' not in r:
                want = executable(p)
                if want:
                    rows[r] = (want & hit.get(r, set()), want)
    return rows
