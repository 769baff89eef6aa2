"""C24: printing shows the records it says."""
from harness.props.show import batches, singles  # noqa: F401

TRACE = "ShowTrace"
ASSUMPTIONS = ["printed on a console of 80 columns, with texts that fit into it", "the limits are those the library names (MAX_PRINT_BATCH_SIZE, SHOW_BATCH_SIZE)"]
CFG = """SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes = {%s}
  Deep = {%s}
  MaxShown = 4
  Half = 2
"""


def models(ctx):
    yield dict(name="show", module="MCShow", emit="TR ", heap="2g", cfg_text=CFG % (
        ctx.pick("0, 1, 2, 3, 4, 5, 6, 9", "0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 33"), ctx.pick("0, 1, 2, 3", "0, 1, 2, 3, 4, 5")))


def jobs(ctx):
    p = ctx.put("shapes.json", ctx.models["show"]["emitted"])
    n = ctx.pick(3, 7)
    out = [dict(func="batches", weight=4, deadline=ctx.pick(35, 400), args=dict(path=p, seed=ctx.seed * 100 + j, part=j, parts=n)) for j in range(n)]
    for j in range(ctx.pick(2, 5)):
        out.append(dict(func="singles", weight=3, deadline=ctx.pick(25, 200), args=dict(seed=ctx.seed * 10 + j, rounds=ctx.pick(60, 600))))
    return out
