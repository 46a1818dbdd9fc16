"""Replays recorded requests in the Python module and compares the results.
Exit 0: all equal. 1: difference (described on stdout). 3: cannot run."""
import importlib.machinery
import importlib.util
import json
import math
import sys

try:
    loader = importlib.machinery.ExtensionFileLoader("pygenex", sys.argv[1])
    spec = importlib.util.spec_from_file_location("pygenex", sys.argv[1], loader=loader)
    pygenex = importlib.util.module_from_spec(spec)
    loader.exec_module(pygenex)
    ops = [json.loads(l) for l in open(sys.argv[2])]
except Exception as e:
    sys.stderr.write("%r\n" % e)
    sys.exit(3)


def same(got, want):
    if isinstance(want, float):
        if not isinstance(got, float):
            return False
        if math.isnan(want):
            return math.isnan(got)
        if math.isinf(want):
            return got == want
        return abs(got - want) <= 1e-12 * abs(want)
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same(got[k], want[k]) for k in want)
    return type(got) is type(want) and got == want


def bad(op, what):
    print("%s%s %s: %s" % (op["f"], tuple(op["a"]), op["k"] or "", what))
    sys.stdout.flush()
    sys.exit(1)


for op in ops:
    # the last line of the output names the request that was running
    print("at %s %s" % (op["f"], op["a"]))
    sys.stdout.flush()
    f = getattr(pygenex, op["f"], None)
    if f is None:
        bad(op, "the module has no such function")
    try:
        got = f(*op["a"], **op["k"])
        raised = None
    except Exception as e:
        raised = e
    if not op["ok"]:
        if raised is None:
            bad(op, "a request the library refuses returned %r" % (got,))
        continue
    if raised is not None:
        bad(op, "a request the library carries out raised %r" % raised)
    kind = op.get("t")
    want = op["r"]
    if not same(got, want):
        bad(op, "returned %r instead of %r" % (got, want))
    if kind == "tuple" and not isinstance(got, tuple):
        bad(op, "returned %s instead of a tuple" % type(got))
    if kind != "tuple" and isinstance(want, list) and not isinstance(got, list):
        bad(op, "returned %s instead of a list" % type(got))
    if kind == "pairs" and not all(isinstance(p, tuple) and len(p) == 2 for p in got):
        bad(op, "returned a list of something else than pairs")
    if "files" in op:
        a, b = (open(p, "rb").read() for p in op["files"])
        if a != b:
            bad(op, "the file written differs from the library's")
print("END %d" % len(ops))
