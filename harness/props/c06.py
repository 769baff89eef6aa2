"""C06: a priority queue returns its smallest keys, sorted."""
from harness.props import pq
from harness.props.large import queue  # noqa: F401
from harness.props.pq import random_histories, replay  # noqa: F401

TRACE = "BGPQTrace"
ASSUMPTIONS = ["keys are finite, without NaN, mixed zero signs or subnormals",
               "histories never hold more than the declared total_size (C08 covers the rest)"]
# batch, branch, keys, maxheld, emit
SPECS = [(2, 3, 3, 6, True), (2, 5, 2, 10, True), (1, 7, 2, 7, True), (3, 3, 2, 9, True), (2, 1, 3, 2, True), (1, 4, 3, 4, True), (2, 5, 3, 10, True), (1, 7, 3, 7, True), (3, 6, 2, 18, True)]
THOROUGH = [(2, 7, 2, 14, True), (2, 4, 3, 8, True), (3, 4, 2, 12, True), (1, 6, 4, 6, True), (2, 6, 3, 12, False), (4, 3, 2, 12, True), (2, 7, 3, 14, True), (2, 6, 4, 12, False)]


def models(ctx):
    yield from pq.impl_models(SPECS if ctx.quick else SPECS + THOROUGH)


def replay_jobs(ctx, limit, kinds=("U32", "Nest", "Mix", "Deep", "Packed", "Wide", "Tiny", "Grid")):
    out = []
    for j, (name, m) in enumerate(sorted(ctx.models.items())):
        if not m["emitted"]:
            continue
        b, br, _, _ = map(int, name.split("_")[1:])
        out.append(dict(func="replay", weight=5, deadline=ctx.pick(40, 700), args=dict(
            transitions=ctx.put(name + ".json", m["emitted"]), kind=kinds[(j + ctx.seed) % len(kinds)], dtype=pq.DTYPES[(j + ctx.seed) % 3],
            style=["small", "negative", "extreme", "tight"][(j + ctx.seed) % 4], batch=b, branch=br, total=b * br, seed=ctx.seed + j, limit=limit)))
    return out


CONFIGS = [(8, 2), (30, 4), (7, 3), (16, 1), (5, 5), (40, 8), (64, 4), (3, 8), (9, 2), (100, 7), (33, 1), (26, 2)]
KINDS = ["U32", "Mix", "Nest", "Grid", "Packed", "Wide", "Deep", "Bits", "Tiny"]


def jobs(ctx):
    out = replay_jobs(ctx, ctx.pick(1200, 40000))
    for w, b, kn, same in ((2, 66000, "U32", True), (66000, 3, "Wide", False)):
        out.append(dict(func="queue", weight=7, trace_module="LargeTrace", deadline=ctx.pick(60, 300), args=dict(
            kind=kn, blocks=b, width=w, seed=ctx.seed, distinct=not same)))
    for j in range(ctx.pick(6, 24)):
        out.append(dict(func="random_histories", weight=4, deadline=ctx.pick(40, 700), args=dict(
            kinds=[KINDS[(j + ctx.seed) % 9]], configs=[CONFIGS[(2 * j) % 12], CONFIGS[(2 * j + 1) % 12]],
            histories=ctx.pick(8, 60), steps=70, seed=ctx.seed * 50 + j, dtypes=[pq.DTYPES[j % 3]])))
    return out
