"""C16: packed tensor fields."""
from harness.props import c15
from harness.props.fields import conversions, histories  # noqa: F401

TRACE = "FieldTrace"
ASSUMPTIONS = ["values lie within the declared width"]


def models(ctx):
    yield dict(name="exhaustive", module="MCBitPack", heap="4g", timeout=3000, cfg_text=c15.CFG % (8, 2, "TRUE", "", ctx.pick(6, 9), "1"))
    yield dict(name="fields", module="MCBitPack", emit="TR ", heap="4g", timeout=3000,
               cfg_text=c15.CFG % (32, 8, "FALSE", '"singles"', 0, "1"))


def jobs(ctx):
    p = ctx.put("fields.json", ctx.models["fields"]["emitted"])
    out = []
    for j in range(ctx.pick(3, 7)):
        out.append(dict(func="histories", weight=4, deadline=ctx.pick(30, 900), args=dict(path=p, seed=ctx.seed * 100 + j)))
    for j in range(ctx.pick(3, 7)):
        out.append(dict(func="histories", weight=3, deadline=ctx.pick(30, 900), args=dict(path="", seed=ctx.seed * 100 + 30 + j)))
    out.append(dict(func="histories", weight=5, deadline=ctx.pick(30, 300), args=dict(path="", seed=ctx.seed * 100 + 90, long=ctx.pick(1, 2))))
    for j in range(ctx.pick(2, 4)):
        out.append(dict(func="conversions", weight=2, deadline=ctx.pick(18, 400), args=dict(path="", seed=ctx.seed * 100 + 60 + j)))
    return out
