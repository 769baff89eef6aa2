"""C14: indexing reads and writes whole records."""
from harness.props import arr
from harness.props.arr import cases, programs  # noqa: F401
from harness.props.c13 import model

TRACE = "ArrTrace"
ASSUMPTIONS = ["positions are in range (negative ones count from the end); assigned positions are distinct",
               "selection: one condition for the whole batch, or one per record for records whose fields are all scalar",
               "records hold JAX arrays"]


def models(ctx):
    yield model(ctx, "MCArr_wheres", ["wheres"], not ctx.quick)
    yield model(ctx, "MCArr_indexes", ["indexes"], not ctx.quick)


def jobs(ctx):
    p = ctx.put("cases.json", ctx.models["MCArr_wheres"]["emitted"] + ctx.models["MCArr_indexes"]["emitted"])
    out = []
    n = ctx.pick(4, 14)
    for j in range(n):
        out.append(dict(func="cases", weight=5, deadline=ctx.pick(33, 900), args=dict(
            kinds=arr.KINDS[2 * j % len(arr.KINDS):] + arr.KINDS[:2 * j % len(arr.KINDS)], path=p, count=ctx.pick(2000, 10 ** 6), seed=ctx.seed * 100 + j, offset=j, stride=n)))
    for j in range(ctx.pick(3, 24)):
        out.append(dict(func="programs", weight=5, deadline=ctx.pick(33, 900), args=dict(
            kinds=[arr.KINDS[(2 * j + ctx.seed) % len(arr.KINDS)], arr.KINDS[(2 * j + 4 + ctx.seed) % len(arr.KINDS)]], families=arr.INDEX + ["concat", "transpose", "reshape"],
            programs=ctx.pick(60, 500), steps=ctx.pick(14, 20), seed=ctx.seed * 1000 + j)))
    return out
