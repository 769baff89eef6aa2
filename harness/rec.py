"""Recording of events from the real code."""
import json
import os
import time
import traceback

REPO = os.path.realpath(os.environ.get("XTRUCTURE_REPO", "/repo"))


def from_code_under_test(exc):
    """True if the exception passed through a frame of the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def err_text(exc):
    return "%s: %s" % (type(exc).__name__, str(exc).split("\n")[0][:160])


class Budget(Exception):
    pass


class Rec:
    """Writes one ndjson event file. `reset` starts a new trace (history)."""

    def __init__(self, path, job, deadline=None, max_events=None):
        self.path, self.job = path, job
        self.fh = open(path, "w")
        self.n = 0
        self.traces = 0
        self.ops = {}
        self.deadline = deadline
        self.max_events = max_events
        self.pending_path = path + ".pending"
        self.t0 = time.time()

    def out_of_time(self):
        return (self.deadline is not None and time.time() - self.t0 > self.deadline) or (
            self.max_events is not None and self.n >= self.max_events)

    def pending(self, text):
        with open(self.pending_path, "w") as fh:
            fh.write(text)

    def reset(self, **kw):
        self.traces += 1
        self.ev("reset", **kw)

    def ev(self, op, **kw):
        kw["op"] = op
        kw["id"] = self.n
        self.n += 1
        self.ops[op] = self.ops.get(op, 0) + 1
        for k, v in kw.items():
            if v is None or isinstance(v, dict):
                kw[k] = str(v)  # TLC's JSON reader has no null
        self.fh.write(json.dumps(kw, separators=(",", ":"), default=_np) + "\n")

    def call(self, fn, *a, **kw):
        """Run code under test. Returns (result, "") or (None, error text)."""
        try:
            return fn(*a, **kw), ""
        except Exception as exc:  # noqa: BLE001 - any failure of the code under test is an observation
            if isinstance(exc, (KeyboardInterrupt, MemoryError)):
                raise
            return None, err_text(exc) or "error"

    def close(self):
        self.fh.close()
        with open(self.path + ".meta", "w") as fh:
            json.dump(dict(events=self.n, traces=self.traces, ops=self.ops), fh)


def _np(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if hasattr(o, "tolist"):
        return o.tolist()
    raise TypeError("not JSON: %r" % (o,))


def trace_text(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-4000:]
