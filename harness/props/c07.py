"""C07: a priority queue conserves its key-record pairs."""
from harness.props import pq
from harness.props.large import queue  # noqa: F401
from harness.props.c06 import CONFIGS, KINDS, replay_jobs
from harness.props.pq import random_histories, replay  # noqa: F401

TRACE = "BGPQTrace"
ASSUMPTIONS = ["keys are finite, without NaN, mixed zero signs or subnormals",
               "histories never hold more than the declared total_size (C08 covers the rest)"]
SPECS = [(2, 3, 2, 6, True), (3, 4, 1, 12, True), (2, 7, 1, 14, True), (1, 3, 2, 3, True), (4, 2, 2, 8, True), (2, 7, 2, 14, True), (3, 4, 2, 12, True)]
THOROUGH = [(3, 5, 2, 15, False), (3, 6, 1, 18, True), (2, 4, 2, 8, True), (1, 8, 2, 8, True)]


def models(ctx):
    yield from pq.impl_models(SPECS if ctx.quick else SPECS + THOROUGH)


def jobs(ctx):
    out = replay_jobs(ctx, ctx.pick(700, 20000), ("Mix", "Bits", "Deep", "Wide", "Grid", "Packed"))
    for w, b, kn, same in ((1, 66000, "U32", False), (70000, 3, "Wide", True)):
        out.append(dict(func="queue", weight=7, trace_module="LargeTrace", deadline=ctx.pick(60, 300), args=dict(
            kind=kn, blocks=b, width=w, seed=ctx.seed, distinct=not same)))
    for j in range(ctx.pick(7, 28)):
        out.append(dict(func="random_histories", weight=4, deadline=ctx.pick(40, 700), args=dict(
            kinds=[KINDS[j % 9]], configs=[CONFIGS[(5 * j + 3) % 12], CONFIGS[(5 * j + 4) % 12]],
            histories=ctx.pick(8, 60), steps=70, seed=ctx.seed * 50 + 1000 + j, styles=["small", "tight"], dtypes=[pq.DTYPES[(j + ctx.seed) % 3]])))
    return out
