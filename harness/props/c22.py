"""C22: accelerators' code."""

from harness.props.bits import layouts  # noqa: F401
from harness.props.c04 import dups  # noqa: F401
from harness.props.c10 import CFG, conf_env
from harness.props.conf import across, refusals  # noqa: F401
from harness.props.hashtab import fillings, random_histories as table_histories  # noqa: F401
from harness.props.merges import merges  # noqa: F401
from harness.props.pq import random_histories as queue_histories  # noqa: F401

TRACE = "ConfTrace"
ASSUMPTIONS = ["the accelerators' kernels run in the Pallas interpreter, with the device's name emulated (harness/emu.py): what the code generators for "
               "Triton and Mosaic make of the same kernels is outside", "the sequential merge kernel takes non-empty inputs"]
MERGE = "SPECIFICATION Spec\nINVARIANTS Splits Merged\nCHECK_DEADLOCK FALSE\nCONSTANTS Keys = {%s}\n MaxLen = %d\n Block = %d\n"


def models(ctx):
    for d in ("gpu", "tpu"):
        yield dict(name=d, module="MCConfig", emit="TR ", heap="3g", timeout=900, cfg_text=CFG % (ctx.seed, d))
    for b in ctx.pick((2,), (1, 2, 3)):
        yield dict(name="merge%d" % b, module="MCMerge", emit="TR ", heap="4g", timeout=1500, cfg_text=MERGE % (ctx.pick("0, 1, 2", "0, 1, 2, 3"), ctx.pick(3, 4), b))


def jobs(ctx):
    out = []
    s = ctx.seed
    full = {}
    for d in ("gpu", "tpu"):
        em = ctx.models[d]["emitted"]
        p = ctx.put(d + ".json", em)
        full[d] = [t for t in em if t["kind"] == "row"]
        rows = [i for i, t in enumerate(em) if t["kind"] == "row"]
        rows = rows[s % 3:: ctx.pick({"gpu": 5, "tpu": 4}[d], 1)]
        for j in range(0, len(rows), 3):
            out.append(dict(func="across", weight=9, deadline=ctx.pick(60, 900), args=dict(path=p, rows=rows[j:j + 3], seed=s * 1000 + j)))
        bad = [i for i, t in enumerate(em) if t["kind"] == "bad"]
        n = ctx.pick(1, 3)
        for j in range(n):
            out.append(dict(func="refusals", weight=5, deadline=ctx.pick(60, 900), args=dict(path=p, picks=bad[(s + j) % n::n], seed=s)))

    def env(d, k, **more):
        e = dict(conf_env(full[d][k % len(full[d])]), VERIF_EMULATE=d)
        e.update(more)
        return e

    for j in range(ctx.pick(4, 20)):
        more = dict(XTRUCTURE_BGPQ_MERGE_BACKEND="parallel") if j % 2 else dict(XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND="kv", XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_SORTSPLIT="kv",
                                                                            XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_BUFFER="kv")
        e = env("gpu", s + 3 * j, **more)
        if j % 2:
            for n in [n for n in e if "VALUE_BACKEND" in n]:
                e.pop(n)
        out.append(dict(func="queue_histories", trace_module="BGPQTrace", weight=6, deadline=ctx.pick(35, 400), env=e, args=dict(
            kinds=["Mix", "Nest", "Packed", "Wide", "Bits", "Deep"], configs=[[40, 8], [27, 4], [16, 1], [60, 5]], histories=ctx.pick(4, 30), steps=ctx.pick(30, 80), seed=s * 100 + j)))
    for j in range(ctx.pick(4, 20)):
        d = ["gpu", "tpu"][j % 2]
        e = env(d, s + 5 * j, **{"XTRUCTURE_HASHTABLE_TRITON_INSERT": "1", "XTRUCTURE_HASHTABLE_PALLAS_INSERT": "1"})
        out.append(dict(func="table_histories", trace_module="HashTrace", weight=6, deadline=ctx.pick(35, 400), env=e, args=dict(
            kinds=["Wide", "Mix", "ConstHash", "Bits", "WeakWide", "Nest"][j % 3:] + ["Packed"], configs=[[24, 4, 2, None], [40, 8, 1, None], [30, 2, 3, None], [48, 32, 1, None], [20, 3, 2, None]],
            width=9, histories=ctx.pick(4, 20), steps=30, seed=s * 100 + j, n_ids=48)))
        if j < ctx.pick(2, 10):  # to the last slot: every bucket has to be tried
            out.append(dict(func="fillings", trace_module="HashTrace", weight=6, deadline=ctx.pick(35, 400), env=env(
                d, s + 11 * j, **{"XTRUCTURE_HASHTABLE_TRITON_INSERT": "1", "XTRUCTURE_HASHTABLE_PALLAS_INSERT": "1"}), args=dict(
                kinds=[["U32", "Wide", "Mix"][j // 2 % 3]], configs=[[[8, 2, 1, None], [4, 1, 1, None], [16, 2, 1, None]][(s + j) // 2 % 3]],
                width=4, histories=ctx.pick(40, 200), seed=s * 100 + 60 + j)))
        if j < ctx.pick(2, 10):
            out.append(dict(func="dups", trace_module="HashTrace", weight=6, deadline=ctx.pick(30, 300), env=env(d, s + 7 * j), args=dict(
                kind=["WeakWide", "Bits"][j % 2], width=17, histories=ctx.pick(4, 16), calls=14, seed=s * 70 + j, near=bool(j % 2))))
    for j in range(ctx.pick(2, 8)):
        d = ["gpu", "tpu"][j % 2]
        out.append(dict(func="layouts", trace_module="PackTrace", weight=4, deadline=ctx.pick(28, 400), env=dict(
            VERIF_EMULATE=d, XTRUCTURE_AGG_BITPACK_PACK_BACKEND="pallas", XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE=["1", "3", "4", "16"][(s + j) % 4]),
            args=dict(path="", count=100000, seed=s * 100 + j, random_layouts=True)))
    for m in sorted(ctx.models):
        if m.startswith("merge"):
            p = ctx.put(m + ".json", ctx.models[m]["emitted"])
            n = ctx.pick(2, 6)
            for j in range(n):
                out.append(dict(func="merges", trace_module="MergeTrace", weight=4, deadline=ctx.pick(30, 400), env=dict(VERIF_EMULATE="gpu"), args=dict(
                    path=p, seed=s * 10 + j, part=j, parts=n, rounds=ctx.pick(40, 400))))
    for j in range(ctx.pick(2, 8)):
        out.append(dict(func="merges", trace_module="MergeTrace", weight=4, deadline=ctx.pick(30, 400), env=dict(VERIF_EMULATE="gpu"), args=dict(
            path="", seed=s * 10 + 5 + j, part=0, parts=1, rounds=ctx.pick(40, 1000))))
    return out
