"""Common part of the Python harnesses: scenarios in (ndjson), records out (ndjson)."""
import json, math, os, signal, sys
NANV, BIGV = 1999999999, 1500000000


def num(x, scale):
    x = float(x)
    if math.isnan(x): return NANV
    v = x * scale
    if v > BIGV: return BIGV
    if v < -BIGV: return -BIGV
    return int(round(v))


def nums(v, scale):
    import numpy as np
    return [num(x, scale) for x in np.asarray(v, dtype=float).reshape(-1)]


def mat(m, scale):
    import numpy as np
    return [[num(x, scale) for x in row] for row in np.asarray(m, dtype=float)]


def run(seconds, body):
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = open(os.devnull, "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

    def emit(r):
        out.write(json.dumps(r, separators=(",", ":")) + "\n"); out.flush()
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    for i, line in enumerate(l for l in open(sys.argv[-1]) if l.strip()):
        out.write("#BEGIN %d\n" % i); out.flush()
        signal.alarm(seconds)
        try:
            body(json.loads(line), emit)
        except Exception as e:      # what the code under test raises is an observation
            emit({"event": "exception", "what": (type(e).__name__ + ": " + str(e))[:200]})
        signal.alarm(0)
        out.write("#END %d\n" % i); out.flush()
    out.flush()
    os._exit(0)


def stub(name, **attrs):
    """A module that is not installed here and that the code only needs by name."""
    import types
    m = types.ModuleType(name)
    for k, v in attrs.items(): setattr(m, k, v)
    sys.modules[name] = m
    return m


REPO_PY = os.path.join(os.environ.get("VF_REPO", "/repo"), "momentumopt", "python")
