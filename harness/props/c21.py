"""C21: strict selection and comparison."""
from harness.props.select import close, defaults, strict, types  # noqa: F401

TRACE = "SelectTrace"
ASSUMPTIONS = ["values and tolerances are chosen so that the comparison is exact in the field's type, or away from the boundary",
               "compared records have the same shapes"]
CFG = """SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Values <- %s
  Tols = {%s}
  Bits = 4
"""


def models(ctx):
    yield dict(name="select", module="MCSelect", emit="TR ", heap="3g", cfg_text=CFG % (
        ctx.pick("Few", "Many"),
        ctx.pick("0, 1, 4, 8", "0, 1, 2, 4, 7, 8")))


def jobs(ctx):
    p = ctx.put("cases.json", ctx.models["select"]["emitted"])
    out = []
    n = ctx.pick(3, 7)
    for j in range(n):
        out.append(dict(func="strict", weight=4, deadline=ctx.pick(30, 400), args=dict(path=p, seed=ctx.seed * 100 + j, part=j, parts=n)))
        out.append(dict(func="close", weight=4, deadline=ctx.pick(30, 400), args=dict(path=p, seed=ctx.seed * 100 + j, part=j, parts=n)))
    for j in range(ctx.pick(2, 7)):
        out.append(dict(func="defaults", weight=3, deadline=ctx.pick(25, 300), args=dict(seed=ctx.seed * 100 + j, rounds=ctx.pick(400, 10000))))
    for j in range(ctx.pick(2, 7)):
        out.append(dict(func="types", weight=3, deadline=ctx.pick(25, 300), args=dict(seed=ctx.seed * 100 + j, rounds=ctx.pick(400, 10000))))
    return out
