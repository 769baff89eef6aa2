"""Check driver: python -m harness.main <property> [quick|thorough] [--replay FILE] [--keep]"""
import concurrent.futures as cf
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from harness import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def brief(event, most=2000):
    """A recorded event without its very long parts, for the evidence file."""
    return {k: v if len(json.dumps(v, default=str)) <= most else "(%d characters)" % len(json.dumps(v, default=str)) for k, v in event.items()}


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.quick = tier == "quick"
        self.hung = self.found = False
        self.models = {}
        self.t0 = time.time()

    def pick(self, q, t):
        return q if self.quick else t

    def put(self, name, obj):
        """Write a JSON input file for jobs; returns its path."""
        p = os.path.join(self.scratch, name)
        with open(p, "w") as fh:
            json.dump(obj, fh)
        return p


def run_job(i, job, module, ctx, trace_module):
    t0 = time.time()
    base = os.path.join(ctx.scratch, "job%03d" % i)
    with open(base + ".json", "w") as fh:
        json.dump(job, fh)
    env = dict(os.environ)
    env.update(job.get("env", {}))
    out = base + ".ndjson"
    env["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    timeout = job.get("timeout", 300 if ctx.quick else 2400)
    if ctx.found and os.environ.get("VERIF_FAILFAST"):
        return dict(i=i, job=job, viols=[], meta=dict(events=0, traces=0, ops={}), states=0, gen=0, out=out, secs=0)
    if ctx.hung and ctx.quick and t0 - ctx.t0 > 480:  # the verdict is known: leave the rest unexplored
        return dict(i=i, job=job, viols=[], meta=dict(events=0, traces=0, ops={}), states=0, gen=0, out=out, secs=0)
    if ctx.hung:  # already a violation: do not spend as long on every further job that hangs
        timeout = min(timeout, max(90, 2 * job.get("deadline", 40)))
    status, viols = "ok", []
    with open(base + ".err", "w") as err:
        p = subprocess.Popen([sys.executable, "-m", "harness.worker", module, base + ".json", out],
                             cwd=VERIF, env=env, stdout=err, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
            ctx.hung = True
    pend = ""
    if os.path.exists(out + ".pending"):
        with open(out + ".pending") as fh:
            pend = fh.read()
    errtail = open(base + ".err", errors="replace").read()[-3000:]
    if rc is None:
        viols.append(dict(at=0, id=-1, op=pend or "?", clauses=["terminates"]))
    elif rc == 3:
        with open(out + ".crash") as fh:
            crash = json.load(fh)
        viols.append(dict(at=0, id=-1, op=pend or "?", clauses=["no_unexpected_exception"], detail=crash))
    elif rc < 0:
        viols.append(dict(at=0, id=-1, op=pend or "?", clauses=["process_survives"], detail="signal %d" % -rc))
    elif rc != 0:
        raise tlc.MachineryError("worker failed (rc=%s) job=%s\n%s" % (rc, job, errtail))
    meta = dict(events=0, traces=0, ops={})
    states = gen = 0
    if rc in (0, 3) and os.path.exists(out + ".meta"):
        with open(out + ".meta") as fh:
            meta = json.load(fh)
        if rc == 0 and meta["events"] == 0 and not job.get("may_be_empty"):
            raise tlc.MachineryError("job recorded nothing: %s" % job)
        if meta["events"]:
            v, states, gen = tlc.validate_trace(job.get("trace_module", trace_module), out, meta["events"], ctx.scratch,
                                                heap=job.get("heap", "3g"), timeout=job.get("tlc_timeout", 600 if ctx.quick else 3000))
            viols += v
    ctx.found = ctx.found or bool(viols)
    return dict(i=i, job=job, viols=viols, meta=meta, states=states, gen=gen, out=out, secs=time.time() - t0)


def context_of(out, at):
    """Events of the trace containing line `at` (1-based), up to it."""
    lines = []
    if not os.path.exists(out):
        return lines
    with open(out) as fh:
        for n, line in enumerate(fh, 1):
            if n > at > 0:
                break
            if '"op":"reset"' in line:
                lines = []
            lines.append(json.loads(line))
    return lines[-400:]


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fh:
        return [k for k in json.load(fh).get("findings", []) if k["property"] == prop]


def known_match(k, job, viol, event):
    """A finding names the job kind, op and exact identifying fields of the failing event."""
    m = k["match"]
    if m.get("op") not in (None, viol["op"]):
        return False
    if not set(viol["clauses"]) <= set(m.get("clauses", [])):
        return False
    for f, v in m.get("event", {}).items():
        if event is None or event.get(f) != v:
            return False
    return True


def main():
    argv = [a for a in sys.argv[1:] if not a.startswith("--")]
    keep = "--keep" in sys.argv
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = prop.lower()
    t0 = time.time()
    mod = importlib.import_module("harness.props." + module)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 2
    try:
        rc = check(prop, tier, seed, module, mod, scratch, t0)
    except tlc.MachineryError as exc:
        print("MACHINERY-ERROR property=%s %s" % (prop, exc))
        rc = 2
    finally:
        if keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, module, mod, scratch, t0):
    ctx = Ctx(prop, tier, seed, scratch)
    only = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as fh:
            rp = json.load(fh)
        only, seed, tier = rp["job_index"], rp["seed"], rp["tier"]
        ctx = Ctx(prop, tier, seed, scratch)
    states = trans = 0
    workers = int(os.environ.get("VERIF_WORKERS", "7"))
    with cf.ThreadPoolExecutor(workers) as pool:
        futs = {}
        for m in mod.models(ctx):
            m = dict(m)
            name = m.pop("name")
            futs[pool.submit(tlc.check_model, m.pop("module"), m.pop("cfg", None), scratch, **m)] = name
        for f in cf.as_completed(futs):
            r = f.result()
            ctx.models[futs[f]] = r
            states += r["states"]
            trans += r["transitions"]
        model_secs = time.time() - t0
        jobs = mod.jobs(ctx)
        sel = [(i, j) for i, j in enumerate(jobs) if only is None or i == only]
        sel.sort(key=lambda ij: -ij[1].get("weight", 1))
        broken = []

        def one(ij):
            try:
                return run_job(ij[0], ij[1], module, ctx, mod.TRACE)
            except tlc.MachineryError as exc:
                broken.append(exc)

        results = [r for r in pool.map(one, sel) if r]
    if broken and not any(r["viols"] for r in results):
        raise broken[0]
    for exc in broken:  # violations found elsewhere stand
        print("MACHINERY-ERROR property=%s %s" % (prop, exc), file=sys.stderr)
    results.sort(key=lambda r: r["i"])
    for old in glob.glob(os.path.join(EVID, "replay", prop + "-*.json")):
        if "--replay" not in sys.argv:
            os.remove(old)
    known = load_known(prop)
    seen_known, reported = {}, []
    ops, events, traces = {}, 0, 0
    for r in results:
        events += r["meta"]["events"]
        traces += r["meta"]["traces"]
        states += r["states"]
        trans += r["gen"]
        for o, c in r["meta"]["ops"].items():
            ops[o] = ops.get(o, 0) + c
        for v in r["viols"]:
            evs = context_of(r["out"], v["at"]) if v["at"] else []
            ev = evs[-1] if evs else None
            k = next((k for k in known if known_match(k, r["job"], v, ev)), None)
            if k is not None:
                seen_known[k["id"]] = k
            else:
                reported.append((r, v, evs))
    for k in sorted(seen_known.values(), key=lambda k: k["id"]):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    shown, classes = 0, set()
    for r, v, evs in reported:
        cls = (v["op"], tuple(v["clauses"]), r["job"].get("func"))
        if cls in classes or shown >= 6:
            continue
        classes.add(cls)
        shown += 1
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, shown))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, job_index=r["i"], job=r["job"], seed=seed, tier=tier, violation=v, history=evs), fh, indent=1)
        print("VIOLATION property=%s replay=%s op=%s clauses=%s" % (prop, path, v["op"], ",".join(v["clauses"])))
        if v.get("detail"):
            print("  " + str(v["detail"])[:600])
    samples = []
    for r in results[:: max(1, len(results) // 3)][:3]:
        evs = context_of(r["out"], min(12, r["meta"]["events"]))
        samples.append(dict(job=r["job"].get("func"), args={k: v for k, v in r["job"].get("args", {}).items() if isinstance(v, (int, str, float, bool))}, events=[brief(e) for e in evs[:6]]))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"), wall_s=round(time.time() - t0, 2),
              violations=len(reported),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=traces, samples=samples,
                            events_validated=events, events_by_operation=ops,
                            model_configurations={n: dict(states=m["states"], transitions=m["transitions"], emitted=len(m["emitted"])) for n, m in ctx.models.items()},
                            model_wall_s=round(model_secs, 2), jobs=len(results),
                            slowest_job_s=round(max([r["secs"] for r in results] or [0]), 1),
                            known_findings_seen=sorted(seen_known)),
              assumptions=getattr(mod, "ASSUMPTIONS", []))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s %s seed=%d: %d model states, %d events in %d histories, %d violations, %.1fs" % (
        prop, tier, seed, sum(m["states"] for m in ctx.models.values()), events, traces, len(reported), time.time() - t0))
    return 1 if reported else 0


if __name__ == "__main__":
    main()
