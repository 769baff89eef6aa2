"""C23: programs of one kernel side by side."""

from harness.props.races import blocks, reserve, tables  # noqa: F401

TRACE = "ReserveTrace"
ASSUMPTIONS = ["memory is sequentially consistent, an atomic operation is one access and aligned words are read whole",
               "interleavings are those of accesses to memory that is shared for reading and writing; other outputs are watched for cells with two writers"]
CFG = "SPECIFICATION Spec\nINVARIANTS Exclusive Lowest Informed Bounded\nPROPERTY ASpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Cap = %d\n B = %d\n Probe = %d\n P = %d\n Steps = {%s}\n Share = %d\n Pick = %d\n"


def models(ctx):
    s = ctx.seed
    for name, cap, b, probe, p, steps, share in ctx.pick(
            [("pair", 2, 2, 2, 3, "1", 3), ("ring", 4, 1, 4, 3, "1, 3", 199), ("deep", 1, 3, 1, 3, "1", 1), ("short", 4, 1, 2, 3, "1, 3", 67)],
            [("pair", 2, 2, 2, 3, "1", 1), ("ring", 4, 1, 4, 3, "1, 3", 23), ("deep", 1, 4, 1, 3, "1", 1), ("short", 4, 1, 2, 3, "1, 3", 11), ("four", 1, 2, 1, 4, "1", 1), ("two", 4, 2, 4, 2, "1, 3", 23)]):
        yield dict(name=name, module="ReserveImpl", emit="TR ", heap="4g", timeout=1500, cfg_text=CFG % (cap, b, probe, p, steps, share, s % share))


def jobs(ctx):
    out = []
    s = ctx.seed
    for name in sorted(ctx.models):
        p = ctx.put(name + ".json", ctx.models[name]["emitted"])
        n = ctx.pick(2, 4)
        for j in range(n):
            out.append(dict(func="reserve", weight=4, may_be_empty=True, deadline=ctx.pick(30, 600), args=dict(path=p, seed=s, part=(j + s) % n, parts=n, count=100000)))
    for j in range(ctx.pick(2, 6)):
        out.append(dict(func="reserve", weight=4, may_be_empty=True, deadline=ctx.pick(30, 600), args=dict(path="", seed=s * 10 + j, part=0, parts=1, count=100000)))
    for j in range(ctx.pick(2, 6)):
        out.append(dict(func="blocks", weight=4, deadline=ctx.pick(30, 600), args=dict(seed=s * 10 + j, count=100000)))
    for j in range(ctx.pick(3, 10)):
        out.append(dict(func="tables", trace_module="HashTrace", weight=5, deadline=ctx.pick(35, 600), args=dict(
            seed=s * 10 + j, kinds=[["U32", "Mix"], ["ConstHash", "Bits"], ["Packed", "Nest"]][j % 3],
            configs=[[6, 2, 1, None], [12, 3, 2, None], [8, 1, 1, None], [16, 4, 1, None]], histories=ctx.pick(6, 60), steps=ctx.pick(10, 20))))
    return out
