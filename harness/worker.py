"""Worker process: runs one job (real code) and records its events.

python -m harness.worker <module> <job.json> <events.ndjson>
exit 0: events complete; exit 3: the code under test raised outside a guarded call (crash.json written);
anything else: machinery failure.
"""
import importlib
import json
import sys

from harness import emu
from harness import rec as R


def main():
    module, job_path, out = sys.argv[1:4]
    with open(job_path) as fh:
        job = json.load(fh)
    rec = R.Rec(out, job, deadline=job.get("deadline"), max_events=job.get("max_events"))
    try:
        emu.install()
        mod = importlib.import_module("harness.props." + module)
        getattr(mod, job["func"])(rec, **job.get("args", {}))
    except Exception as exc:  # noqa: BLE001
        rec.close()
        text = R.trace_text(exc)
        if R.from_code_under_test(exc):
            with open(out + ".crash", "w") as fh:
                json.dump(dict(error=R.err_text(exc), traceback=text), fh)
            sys.exit(3)
        sys.stderr.write(text)
        sys.exit(4)
    rec.close()


if __name__ == "__main__":
    main()
