"""C08: an over-full priority queue degrades safely."""
from harness.props import pq
from harness.props.c06 import CONFIGS, KINDS, replay_jobs
from harness.props.pq import random_histories, replay  # noqa: F401

TRACE = "BGPQTrace"
ASSUMPTIONS = ["keys are finite, without NaN, mixed zero signs or subnormals",
               "what an over-full queue holds is learned by draining a retained copy (queue values are persistent)"]
SPECS = [(2, 3, 2, 11, True), (1, 3, 3, 7, True), (2, 1, 3, 7, True), (3, 2, 2, 12, True), (1, 6, 2, 9, True), (1, 1, 3, 4, True), (2, 2, 3, 8, True), (2, 7, 2, 17, True), (1, 7, 3, 9, True), (2, 5, 2, 14, True)]
THOROUGH = [(2, 4, 2, 14, True), (1, 7, 3, 10, False), (3, 3, 2, 14, True), (2, 5, 2, 16, True), (1, 4, 4, 8, True)]


def models(ctx):
    yield from pq.impl_models(SPECS if ctx.quick else SPECS + THOROUGH)


def jobs(ctx):
    out = replay_jobs(ctx, ctx.pick(700, 20000))
    over = [(8, 2), (12, 4), (7, 3), (6, 1), (5, 5), (24, 8), (20, 4), (3, 8), (9, 2), (30, 7), (13, 1), (26, 2)]
    for j in range(ctx.pick(6, 24)):
        out.append(dict(func="random_histories", weight=5, deadline=ctx.pick(40, 700), args=dict(
            kinds=[KINDS[(j + 3 + ctx.seed) % 9]], configs=[over[(2 * j) % 12], over[(2 * j + 1) % 12]],
            histories=ctx.pick(6, 50), steps=60, seed=ctx.seed * 50 + 2000 + j, over=True, dtypes=[pq.DTYPES[(j + ctx.seed) % 3]])))
    return out
