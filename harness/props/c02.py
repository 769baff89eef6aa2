"""C02: queue histories."""
from harness.props.seqadt import big, random_histories, replay  # noqa: F401

TRACE = "QueueTrace"
C = "queue"
ASSUMPTIONS = ["records are compared through the harness's content table (byte equality of every field)",
               "at most the declared maximum is enqueued between clears; never more is removed than is held"]


def models(ctx):
    yield dict(name="MCQueue", module="MCQueue", cfg="MCQueue.cfg", emit="TR ", heap="2g")


def jobs(ctx):
    tr = ctx.put("tr.json", ctx.models["MCQueue"]["emitted"])
    s = ctx.seed
    out = [dict(func="replay", weight=3, args=dict(container=C, kind=k, transitions=tr, seed=s))
           for k in ctx.pick(["U32", "Grid", "Deep"], ["Deep", "Grid", "U32", "Mix", "Nest", "Packed", "Wide", "Tiny", "Bits"])]
    kinds = ["U32", "Mix", "Nest", "Packed", "Wide", "Bits", "Deep", "Grid"]
    for j in range(ctx.pick(4, 14)):
        out.append(dict(func="random_histories", weight=5, deadline=ctx.pick(45, 600), args=dict(
            container=C, kinds=kinds[3 * j % 8:] + kinds[:3 * j % 8], caps=[[1, 5], [3, 16], [8, 2], [40, 7]][j % 4], maxb=7,
            histories=ctx.pick(14, 120), steps=90, seed=s * 1000 + j)))
    for j, cap in enumerate(ctx.pick([300, 66000], [255, 256, 257, 300, 5000, 65535, 65537, 140000])):
        out.append(dict(func="big", weight=6, args=dict(container=C, kind=kinds[(j + s) % 8], cap=cap, seed=s)))
    return out
