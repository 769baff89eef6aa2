"""C10: performance switches."""

from harness.props.conf import across, refusals  # noqa: F401
from harness.props.c04 import dups  # noqa: F401
from harness.props.hashfn import functions  # noqa: F401
from harness.props.hashtab import random_histories as table_histories  # noqa: F401
from harness.props.pq import random_histories as queue_histories  # noqa: F401

TRACE = "ConfTrace"
ASSUMPTIONS = ["CPU back end (C22 covers the accelerators' code)", "the mode 'approx' is documented to lose records and is not covered",
               "hashes and views of records with declared widths are compared per aggregation mode"]
CFG = "SPECIFICATION Spec\nINVARIANTS AllAccepted Covered BadRefused\nPROPERTY Progress\nCHECK_DEADLOCK FALSE\nCONSTANTS Seed = %d\n Dev = \"%s\"\n"


def models(ctx):
    for s in range(ctx.pick(1, 4)):
        yield dict(name="cover%d" % s, module="MCConfig", emit="TR ", heap="2g", timeout=900, cfg_text=CFG % (ctx.seed + s, "cpu"))


def conf_env(t):
    return {n: v for n, v in zip(t["names"], t["conf"]) if v}


def jobs(ctx):
    out = []
    for m in sorted(ctx.models):
        em = ctx.models[m]["emitted"]
        p = ctx.put(m + ".json", em)
        rows = [i for i, t in enumerate(em) if t["kind"] == "row"][: ctx.pick(20, 1000)]
        per = ctx.pick(4, 5)
        for j in range(0, len(rows), per):
            out.append(dict(func="across", weight=9, deadline=ctx.pick(70, 600), args=dict(path=p, rows=rows[j:j + per], seed=ctx.seed * 1000 + j + 100 * len(out))))
        bad = [i for i, t in enumerate(em) if t["kind"] == "bad"]
        for j in range(ctx.pick(2, 3)):
            out.append(dict(func="refusals", weight=4, deadline=ctx.pick(60, 400), args=dict(path=p, picks=bad[j::ctx.pick(2, 3)], seed=ctx.seed)))
    full = [t for m in sorted(ctx.models) for t in ctx.models[m]["emitted"] if t["kind"] == "row"]
    s = ctx.seed
    for j in range(ctx.pick(4, 24)):
        t = full[(s * 3 + j * 5) % len(full)]
        env = conf_env(t)
        if j % 2 == 0:
            out.append(dict(func="queue_histories", trace_module="BGPQTrace", env=env, weight=5, deadline=ctx.pick(30, 300), args=dict(
                kinds=["Mix", "Nest", "Packed", "Wide"], configs=[[40, 8], [27, 4], [16, 1], [60, 5]], histories=ctx.pick(3, 20), steps=ctx.pick(30, 80), seed=s * 100 + j)))
        else:
            out.append(dict(func="table_histories", trace_module="HashTrace", env=env, weight=5, deadline=ctx.pick(30, 300), args=dict(
                kinds=["Wide", "Mix", "Packed", "Bits"], configs=[[24, 4, 2, None], [40, 8, 1, None]], width=9, histories=ctx.pick(2, 16), steps=30, seed=s * 100 + j, n_ids=48)))
    # records whose short signatures coincide, under every way of finding duplicates
    for j, (mode, kn) in enumerate([("exact", "WeakWide"), ("safe", "WeakWide"), ("exact", "WeakMix"), ("", "Bits"), ("exact", "Wide"), ("fast", "WeakWide")][: ctx.pick(3, 6)] * ctx.pick(1, 3)):
        of = [t for t in full if conf_env(t).get("XTRUCTURE_HASHTABLE_DEDUPE_MODE", "") == mode]
        env = conf_env(of[(s + 3 * j) % len(of)])
        out.append(dict(func="dups", trace_module="HashTrace", env=env, weight=6, deadline=ctx.pick(30, 300), args=dict(
            kind=kn, width=[17, 9][j % 2], histories=ctx.pick(4, 16), calls=14, seed=s * 70 + j, near="alpha" if kn == "WeakWide" else bool(j % 2))))
    for j, (a, b) in enumerate([("on", "off"), ("auto", "off")][: ctx.pick(1, 2)]):
        out.append(dict(func="functions", trace_module="HashFnTrace", weight=5, deadline=ctx.pick(30, 600),
                        env={"XTRUCTURE_HASH_STREAM": a, "XTRUCTURE_HASH_STREAM_THRESHOLD_U32": "1"},
                        args=dict(path="", seed=s * 90 + j, child_env={"XTRUCTURE_HASH_STREAM": b})))
    return out
