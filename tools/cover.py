"""tools/cover.py <property> <outfile> [driver options]: which lines of /repo/lib a property's workloads execute (development aid, not a check)"""
import sys, os, json
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "harness"))
prop, out = sys.argv[1:3]
sys.argv = [sys.argv[0], prop] + sys.argv[3:] + ["--jobs", "1"]
import importlib
import common
module = importlib.import_module("props." + prop.lower())
hits = {}
LIB = os.path.join(common.REPO, "lib")
def local(frame, ev, arg):
    if ev == "line":
        hits.setdefault(frame.f_code.co_filename, set()).add(frame.f_lineno)
    return local
def tr(frame, ev, arg):
    f = frame.f_code.co_filename
    return local(frame, "line", None) if f.startswith(LIB) else None
orig = common.run_case
def run_case(*a, **k):
    sys.settrace(tr)
    try:
        return orig(*a, **k)
    finally:
        sys.settrace(None)
common.run_case = run_case
common.main(prop, module)
json.dump({f: sorted(s) for f, s in hits.items()}, open(out, "w"))
