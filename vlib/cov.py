"""Which lines of the code under test were executed (VERIF_COV=directory): a tool for finding what no workload reaches."""
import atexit  # noqa: F401
import os
import sys
from . import env

_hit = set()


def start():
    m = sys.monitoring
    root = os.path.realpath(env.REPO) + os.sep
    try:
        m.use_tool_id(m.COVERAGE_ID, "verif")
    except ValueError:
        return

    def line(code, n):
        if code.co_filename.startswith(root):
            _hit.add((code.co_filename[len(root):], n))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def dump(prop):
    d = os.environ["VERIF_COV"]
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s-%d.txt" % (prop, os.getpid())), "w") as f:
        for a, n in sorted(_hit):
            f.write("%s %d\n" % (a, n))
