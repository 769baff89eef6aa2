"""C13: batch rearrangement moves whole records."""
from harness.props import arr
from harness.props.arr import cases, programs  # noqa: F401

TRACE = "ArrTrace"
ASSUMPTIONS = ["batch axes are counted from the front (concat and swapaxes: also from the back)",
               "tile, block, broadcasting and promoting stacks are used on records whose fields are all scalar"]
FAMILIES = ["axes", "reshapes", "gathers", "tiles", "joins", "pads", "unfit", "rules"]


def model(ctx, name, families, big=False):
    return dict(name=name, module="MCArr", emit="TR ", heap="4g",
                cfg_text="SPECIFICATION Spec\nINVARIANTS WellFormedResults OnlyOperandRecords Conserved Opposite ConcatCut\n"
                         "CHECK_DEADLOCK FALSE\nCONSTANTS\n  Big = %s\n  Families = {%s}\n" % (
                             "TRUE" if big else "FALSE", ",".join('"%s"' % f for f in families)))


def models(ctx):
    for f in FAMILIES:
        yield model(ctx, "MCArr_" + f, [f], not ctx.quick)


def jobs(ctx):
    all_cases = [c for f in FAMILIES for c in ctx.models["MCArr_" + f]["emitted"]]
    p = ctx.put("cases.json", all_cases)
    out = []
    n = ctx.pick(3, 14)
    for j in range(n):
        out.append(dict(func="cases", weight=5, deadline=ctx.pick(33, 900), args=dict(
            kinds=arr.KINDS[j % len(arr.KINDS):] + arr.KINDS[:j % len(arr.KINDS)], path=p, count=ctx.pick(400, 10 ** 6), seed=ctx.seed * 100 + j, offset=j, stride=n)))
    q = ctx.put("unfit.json", [c for c in all_cases if c["e"]["op"] == "refuse"])
    out.append(dict(func="cases", weight=3, deadline=ctx.pick(33, 300), args=dict(kinds=arr.KINDS, path=q, count=10 ** 6, seed=ctx.seed, jit=0.03)))
    for j in range(ctx.pick(4, 24)):
        out.append(dict(func="programs", weight=5, deadline=ctx.pick(33, 900), args=dict(
            kinds=[arr.KINDS[(2 * j + ctx.seed) % len(arr.KINDS)], arr.KINDS[(2 * j + 4 + ctx.seed) % len(arr.KINDS)]], families=arr.REARRANGE,
            programs=ctx.pick(30, 500), steps=ctx.pick(14, 20), seed=ctx.seed * 1000 + j)))
    return out
