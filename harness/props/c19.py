"""C19: batch shape inference."""
from harness.props.shapes import classes, programs  # noqa: F401

TRACE = "ShapeTrace"
ASSUMPTIONS = ["fields hold arrays (or records of their declared class)",
               "records are rebuilt, not altered by assigning to attributes"]
CFG = ("SPECIFICATION Spec\nINVARIANTS NotStale FilledAgrees Canonical OneOff\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
       "  BatchSet <- %s\n  ShapeSet <- %s\n  MaxSteps = %d\n  Types = {%s}\n")


def models(ctx):
    every = ", ".join(str(i) for i in range(1, 13))
    yield dict(name="short", module="MCShape", emit="TR ", heap="3g", cfg_text=CFG % ("SmallBatches", "SmallShapes", 2, every))
    if not ctx.quick:
        yield dict(name="wide", module="MCShape", emit="TR ", heap="8g", timeout=3000, cfg_text=CFG % ("BigBatches", "BigShapes", 2, every))
        yield dict(name="long", module="MCShape", emit="TR ", heap="8g", timeout=3000, cfg_text=CFG % ("SmallBatches", "SmallShapes", 3, "3, 8, 9, 12"))


def jobs(ctx):
    out = []
    for m, k in (("short", 4), ("wide", 5), ("long", 5)):
        if m not in ctx.models:
            continue
        p = ctx.put("prog_%s.json" % m, ctx.models[m]["emitted"])
        for j in range(k):
            out.append(dict(func="programs", weight=4, deadline=ctx.pick(30, 700), args=dict(path=p, seed=ctx.seed * 100 + j)))
    for j in range(ctx.pick(4, 10)):
        out.append(dict(func="classes", weight=3, deadline=ctx.pick(28, 700), args=dict(seed=ctx.seed * 100 + 40 + j)))
    return out
