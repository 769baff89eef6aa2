"""C05: loaded, full, over-full and probe-limited tables."""
from harness.props.c03 import impl_models
from harness.props.large import table  # noqa: F401
from harness.props.hashtab import fillings, impl_replay, random_histories  # noqa: F401

TRACE = "HashTrace"
ASSUMPTIONS = ["bucket sizes up to 255; size multipliers of at least one",
               "records are compared through the harness's content table",
               "some record types replace their hash methods by colliding ones; results are judged by content only"]


def models(ctx):
    # full and over-full tables, explicit limits: (B, K, N, limit, max batch, min rounds, simulate)
    specs = [(4, 1, 4, None, None, 3, 0), (4, 1, 4, 2, None, 2, 0), (2, 2, 5, None, None, 2, 0), (2, 2, 5, 2, None, 0, 0), (2, 3, 7, 1, 4, 0, 0),
             (1, 3, 5, None, None, 0, 0), (4, 2, 8, None, 8, 4, ctx.pick(8000, 60000)), (8, 1, 8, None, 8, 5, ctx.pick(8000, 60000)),
             (4, 2, 9, 4, 5, 3, ctx.pick(3000, 30000))]
    if not ctx.quick:
        specs += [(4, 1, 5, None, None, 3, 0), (4, 1, 5, 3, None, 2, 0), (2, 3, 7, None, None, 2, 0)]
    yield from impl_models(ctx, specs)


def jobs(ctx):
    s = ctx.seed
    out = []
    for j, (n, m) in enumerate(sorted(ctx.models.items())):
        out.append(dict(func="impl_replay", weight=4, deadline=ctx.pick(30, 500), args=dict(
            behaviours=ctx.put(n + ".json", m["emitted"]), kinds=["Script"] if j % 3 else ["U32", "Script"],
            limit=ctx.pick(130, 4000), width=8, seed=s + j)))
    out.append(dict(func="table", weight=7, trace_module="LargeTrace", deadline=ctx.pick(60, 300), args=dict(
        kind=["U32", "Wide"][s % 2], n=66000, cap=66000, bucket=[1, 4, 16][s % 3], batch=ctx.pick(44000, 140000), seed=s, mult=1)))
    # [cap, bucket, mult, probes]
    cfgs = [[5, 2, 1, None], [4, 1, 1, None], [3, 8, None, None], [8, 2, 1, 2], [8, 2, 1, 1], [10, 3, 1, 5], [1, 1, 1, None], [7, 4, 1, None],
            [20, 40, 1, None], [13, 5, 1, None], [6, 1, 1, 3], [12, 33, 1, 7]]
    kinds = ["Mix", "WeakMix", "Deep", "WeakWide", "ConstHash", "U32", "Grid", "Packed"]
    for j in range(ctx.pick(6, 24)):
        kn = kinds[(j + s) % 8]
        out.append(dict(func="random_histories", weight=6, deadline=ctx.pick(35, 500), args=dict(
            kinds=[kn], configs=[cfgs[(2 * j) % 12], cfgs[(2 * j + 1) % 12]], width=6, histories=ctx.pick(6, 40), steps=40,
            seed=s * 300 + j, over=True, near=bool(j % 2) and kn != "ConstHash", prios=bool(j % 3 == 0))))
    for j in range(ctx.pick(2, 12)):
        out.append(dict(func="fillings", weight=6, deadline=ctx.pick(35, 400), args=dict(
            kinds=[["U32", "Wide", "Mix", "EdgeHash", "Packed"][(s + j) % 5]], configs=[[[8, 2, 1, None], [16, 1, 1, None], [13, 3, 1, None], [32, 2, 1, None]][(s + j) % 4]],
            width=[4, 7][j % 2], histories=ctx.pick(60, 300), seed=s * 300 + 60 + j)))
    for j, kn in enumerate(["EdgeHash"]):
        out.append(dict(func="random_histories", weight=6, deadline=ctx.pick(35, 500), args=dict(
            kinds=[kn], configs=[[10, 3, 1, None], [14, 2, 1, None]], width=6, histories=ctx.pick(6, 40), steps=40, seed=s * 300 + 90 + j, over=True, near=False, prios=True)))
    return out
