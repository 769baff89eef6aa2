"""Running TLC: exhaustive models (with emitted transitions) and trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def run_tlc(module, cfg, scratch, env=None, workers=1, heap="2g", timeout=800, extra=(), cfg_text=None):
    """Run TLC on spec/<module>.tla in a private copy of spec/. Returns (rc, stdout)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    if cfg_text is not None:
        cfg = "Gen_%s.cfg" % module
        with open(os.path.join(d, cfg), "w") as fh:
            fh.write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
           "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    out_path = os.path.join(d, "stdout")
    with open(out_path, "w") as fh:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
    with open(out_path, errors="replace") as fh:
        out = fh.read()
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:  # simulation mode
        m = re.findall(r"The number of states generated: (\d+)", out)
        return (0, int(m[-1])) if m else (0, 0)
    return int(m[-1][1]), int(m[-1][0])


def check_model(module, cfg, scratch, emit=None, **kw):
    """Exhaustively check a model. Every `emit` JSON line printed by the spec is returned.
    Returns dict(ok, states, transitions, emitted, out)."""
    rc, out = run_tlc(module, cfg, scratch, **kw)
    distinct, gen = stats(out)
    ok = rc == 0 and "Model checking completed. No error has been found" in out
    sim = rc == 0 and "-simulate" in kw.get("extra", ())
    emitted = []
    if emit:
        for line in out.splitlines():
            # PrintT of a string prints it quoted with escapes
            if line.startswith('"%s' % emit):
                emitted.append(json.loads(json.loads(line)[len(emit):]))
    if not ok and not sim:
        tail = "\n".join(out.splitlines()[-60:])
        raise MachineryError("model %s/%s did not check: rc=%s\n%s" % (module, cfg, rc, tail))
    return dict(ok=ok, states=distinct, transitions=gen, emitted=emitted, out=out)


VIOL = "VIOL "


def validate_trace(module, trace_file, n_events, scratch, cfg=None, **kw):
    """Validate one recorded event file against a trace spec.

    The trace spec is total: it consumes every event, prints `VIOL <json>` for each event the
    specification does not allow (with the names of the violated clauses) and `DONE <n>` when all n
    events have been consumed. Anything else is a machinery error.
    Returns (list of violation dicts, distinct states, states generated)."""
    env = {"TRACE": trace_file}
    rc, out = run_tlc(module, cfg or (module + ".cfg"), scratch, env=env, **kw)
    distinct, gen = stats(out)
    viols, done = [], None
    for line in out.splitlines():
        if line.startswith('"' + VIOL):
            viols.append(json.loads(json.loads(line)[len(VIOL):]))
        elif line.startswith('"DONE '):
            done = int(json.loads(line)[5:])
    # After a violation the driver and the specification may have parted; what was reported stands.
    if (rc != 0 or done != n_events) and not viols:
        tail = "\n".join(out.splitlines()[-60:])
        raise MachineryError("trace spec %s: rc=%s done=%s of %s\n%s" % (module, rc, done, n_events, tail))
    return viols, distinct, gen
