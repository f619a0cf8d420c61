"""Line coverage of the code under test (only with VERIF_COV=DIRECTORY; see tools/coverage.py)."""
import json, os, sys

LINES = set()


def start(repo):
    pre = os.path.join(repo, "parallel_control") + os.sep
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, "verif")

    def line(code, no):
        if code.co_filename.startswith(pre):
            LINES.add((os.path.basename(code.co_filename), no))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def save():
    d = os.environ["VERIF_COV"]
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{os.getpid()}.json"), "w") as f:
        json.dump(sorted(LINES), f)
